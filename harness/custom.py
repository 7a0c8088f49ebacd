"""User-defined primitives (as a caller may define them) used by the random features."""
import numpy as np
import pandas as pd
from featuretools.primitives.base import AggregationPrimitive, TransformPrimitive
from featuretools import variable_types as vt


class Spread(AggregationPrimitive):
    """two outputs, order sensitive"""
    name = 'spread'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    number_output_features = 2
    default_value = -5

    def get_function(self, agg_type='pandas'):
        def f(x):
            v = [0.0 if pd.isnull(t) else float(t) for t in x]
            return [sum((i + 1) * t for i, t in enumerate(v)), float(len(v))]
        return f


class Weighted(AggregationPrimitive):
    """two inputs, order sensitive"""
    name = 'weighted'
    input_types = [vt.Numeric, vt.Numeric]
    return_type = vt.Numeric
    default_value = 11

    def get_function(self, agg_type='pandas'):
        def f(x, y):
            return float(sum((i + 1) * (0.0 if pd.isnull(a) else a) + (0.0 if pd.isnull(b) else 10 * b)
                             for i, (a, b) in enumerate(zip(x, y))))
        return f


class Folded(AggregationPrimitive):
    """one input, order sensitive, own default value"""
    name = 'folded'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    default_value = -3

    def get_function(self, agg_type='pandas'):
        def f(x):
            s = 0.0
            for t in x:
                s = s / 2 + (0.0 if pd.isnull(t) else float(t))
            return s
        return f


class SpanToCut(AggregationPrimitive):
    """needs the calculation time"""
    name = 'span_to_cut'
    input_types = [vt.DatetimeTimeIndex]
    return_type = vt.Numeric
    uses_calc_time = True

    def get_function(self, agg_type='pandas'):
        def f(x, time=None):
            return float(sum((time - t).total_seconds() / 3600.0 for t in x))
        return f


class PlusMinus(TransformPrimitive):
    name = 'plus_minus'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    number_output_features = 2

    def get_function(self):
        def f(x):
            return [x + 1, -x]
        return f


class RunBoth(TransformPrimitive):
    """needs the whole entity; two outputs"""
    name = 'run_both'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    number_output_features = 2
    uses_full_entity = True

    def get_function(self):
        def f(x):
            y = x.fillna(0)
            return [y.cumsum(), pd.Series([float(i) for i in range(len(y))])]
        return f


class HoursTo(TransformPrimitive):
    name = 'hours_to'
    input_types = [vt.DatetimeTimeIndex]
    return_type = vt.Numeric
    uses_calc_time = True

    def get_function(self):
        def f(x, time=None):
            return (time - x).dt.total_seconds() / 3600.0
        return f


class RunList(TransformPrimitive):
    """needs the whole entity; gives a list, not a series"""
    name = 'run_list'
    input_types = [vt.Numeric]
    return_type = vt.Numeric
    uses_full_entity = True

    def get_function(self):
        def f(x):
            out, s = [], 0.0
            for t in x:
                s = s / 2 + (0.0 if pd.isnull(t) else float(t))
                out.append(s)
            return out
        return f


class RunArray(RunList):
    name = 'run_array'

    def get_function(self):
        g = RunList.get_function(self)
        return lambda x: np.array(g(x), dtype='float64')
