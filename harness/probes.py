"""One probe per recorded finding: returns what fails on the current tree, None when it no longer does."""
import pandas as pd


def approx_ignores_cutoff():
    import featuretools as ft
    from featuretools.primitives import Sum, CumCount
    es = ft.EntitySet('p')
    t = [pd.Timestamp('2020-01-01') + pd.Timedelta(hours=h) for h in range(4)]
    es.entity_from_dataframe('P', pd.DataFrame({'pid': [0]}), index='pid')
    es.entity_from_dataframe('C', pd.DataFrame({'cid': [0, 1, 2, 3], 'pid': [0] * 4, 't': t, 'x': [1., 2., 3., 4.]}), index='cid', time_index='t')
    es.add_relationship(ft.Relationship(es['P']['pid'], es['C']['pid']))
    agg = ft.Feature(es['C']['x'], parent_entity=es['P'], primitive=Sum)
    direct = ft.Feature(agg, entity=es['C'])
    ident = ft.Feature(es['C']['x'])
    cd = pd.DataFrame({'instance_id': [3], 'time': [t[1]]})
    exact = ft.calculate_feature_matrix([ident], es, cutoff_time=cd)['x'].iloc[0]
    both = ft.calculate_feature_matrix([ident, direct], es, cutoff_time=cd, approximate='1 hour')['x'].iloc[0]
    if pd.isnull(exact) and not pd.isnull(both):
        return 'a row after the cutoff is visible with approximate (x = %r)' % both
    return None
