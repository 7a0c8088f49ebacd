"""Types of the attributes of featuretools' classes.

An attribute listed here is, for a symbolic instance, an unconstrained function of
the instance (frame condition: the functions under contract do not assign it; a
write through a symbolic reference makes later reads of that attribute unsupported)."""
from core import INT, REAL, BOOL, STR, ANY, CLS, Ref, Opt, Lst, St, Map, Tup, Meth
from featuretools.feature_base import feature_base as fb
from featuretools.primitives.base import PrimitiveBase, AggregationPrimitive, TransformPrimitive
from featuretools.entityset.relationship import Relationship, RelationshipPath
from featuretools.entityset.entity import Entity
from featuretools.entityset.entityset import EntitySet
from featuretools.variable_types import Variable

# features are compared through their names; == on features builds a new feature
SPECS = {
    type: {'__name__': STR, '__module__': STR},
    fb.FeatureBase: {
        'primitive': Ref(PrimitiveBase),
        'base_features': Lst(Ref(fb.FeatureBase)),
        'variable_type': CLS,
        'number_output_features': INT,
        'entity': Ref(Entity),
        'entity_id': STR,
        'entityset': Ref(EntitySet),
        'relationship_path': Ref(RelationshipPath),
        'get_name': Meth([], STR),
        'unique_name': Meth([], STR),
        'get_dependencies': Meth([], Lst(Ref(fb.FeatureBase))),
        'get_depth': Meth([], INT),
        'default_value': ANY,
        'parent_entity': Ref(Entity),       # of direct and aggregation features
        'variable': Ref(Variable),          # of identity features
        'groupby': Ref(fb.FeatureBase),     # of group-by features
        'base_feature': Ref(fb.FeatureBase),
        'where': Opt(Ref(fb.FeatureBase)),  # of aggregation features
        'use_previous': ANY,
        'child_entity': Ref(Entity),
        '__eq__': 'term',
    },
    fb.FeatureOutputSlice: {'n': INT},
    PrimitiveBase: {
        'name': STR,
        'stack_on': Opt(Lst(CLS)),
        'stack_on_exclude': Opt(Lst(CLS)),
        'base_of': Opt(Lst(CLS)),
        'base_of_exclude': Opt(Lst(CLS)),
        'stack_on_self': BOOL,
        'number_output_features': INT,
        'uses_full_entity': BOOL,
        'commutative': BOOL,
        'default_value': ANY,
    },
    Entity: {'id': STR, 'index': STR, 'time_index': Opt(STR), 'entityset': Ref(EntitySet),
             '__eq__': 'term'},
    EntitySet: {'id': STR, '__getitem__': Meth([STR], Ref(Entity)), '__eq__': 'term'},
    Variable: {'id': STR, 'entity_id': STR, 'name': STR, 'entity': Ref(Entity), 'entityset': Ref(EntitySet), '__eq__': 'term'},
    RelationshipPath: {'__eq__': 'term', '_relationships_with_direction': Lst(Tup(BOOL, Ref(Relationship)))},
    Relationship: {'_parent_entity_id': STR, '_child_entity_id': STR, '_parent_variable_id': STR, '_child_variable_id': STR,
                   'entityset': Ref(EntitySet), 'parent_entity': Ref(Entity), 'child_entity': Ref(Entity),
                   'parent_variable': Ref(Variable), 'child_variable': Ref(Variable)},
}
