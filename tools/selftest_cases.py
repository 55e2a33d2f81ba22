"""Pairs of functions for tools/selftest.py: got_eq_* and want_eq_* do the same, got_ne_* and want_ne_* do not."""


def got_ne_first_return(d: 'map'):
    for k in d:
        if d[k]:
            return k
        return None
    return None


def want_ne_first_return(d: 'map'):
    for k in d:
        if d[k]:
            return k
    return None


def got_ne_raise_after_return(d: 'map', e: 'map'):
    """ | """
    for k in d:
        if k in e:
            return k
        if d[k]:
            raise ValueError()


def want_ne_raise_after_return(d: 'map', e: 'map'):
    for k in d:
        if d[k]:
            raise ValueError()
    for k in d:
        if k in e:
            return k


def got_ne_raise_after_break(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            break
        if d[k]:
            raise ValueError()


def want_ne_raise_after_break(d: 'map', e: 'map'):
    for k in d:
        if d[k]:
            raise ValueError()


def got_ne_raise_before_break(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            raise ValueError()
        if d[k]:
            break


def want_ne_raise_before_break(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            raise ValueError()


def got_ne_break_update(d: 'map', e: 'map'):
    out = {}
    for k in d:
        if k in e:
            break
        out[k] = d[k]
    return out


def want_ne_break_update(d: 'map', e: 'map'):
    out = {}
    for k in d:
        if k in e:
            continue
        out[k] = d[k]
    return out


def got_ne_break_after(d: 'map', e: 'map'):
    out = {}
    for k in d:
        out[k] = d[k]
        if k in e:
            break
    return out


def want_ne_break_after(d: 'map', e: 'map'):
    out = {}
    for k in d:
        if k in e:
            break
        out[k] = d[k]
    return out


def got_ne_two_returns(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            return 1
        if d[k]:
            return 2
    return 3


def want_ne_two_returns(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            return 1
    for k in d:
        if d[k]:
            return 2
    return 3


def got_eq_two_returns(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            return 1
        if d[k]:
            return 2
    return 3


def want_eq_two_returns(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            return 1
        elif d[k]:
            return 2
    return 3


def got_ne_finally(d: 'map', e: 'map'):
    """ | heap=d,e"""
    try:
        if 'a' in d:
            raise ValueError()
        d['x'] = 1
    finally:
        e['y'] = 1


def want_ne_finally(d: 'map', e: 'map'):
    if 'a' in d:
        raise ValueError()
    d['x'] = 1
    e['y'] = 2


def got_ne_swallow(d: 'map'):
    try:
        return d['a']
    except KeyError:
        return None


def want_ne_swallow(d: 'map'):
    return d['a']


def got_ne_handler_order(d: 'map', e: 'map'):
    try:
        x = d['a']
        y = e['b']
    except KeyError:
        return 1
    return x


def want_ne_handler_order(d: 'map', e: 'map'):
    try:
        x = d['a']
    except KeyError:
        return 1
    y = e['b']
    return x


def got_ne_alias(d: 'map'):
    """ | heap=d"""
    a = d
    a['x'] = 1
    return a


def want_ne_alias(d: 'map'):
    a = dict(d)
    a['x'] = 1
    return a


def got_ne_shared_default(d: 'map', n: 'any'):
    rows = [{}] * 2
    rows[0]['a'] = n
    return rows[1]


def want_ne_shared_default(d: 'map', n: 'any'):
    rows = [{}, {}]
    rows[0]['a'] = n
    return rows[1]


def got_ne_late_binding(a: 'any', b: 'any'):
    fs = []
    for x in (a, b):
        fs.append(lambda: x)
    return fs[0]()


def want_ne_late_binding(a: 'any', b: 'any'):
    return a


def got_ne_default_dict(a: 'any', b: 'any'):
    def put(k, box={}):
        box[k] = 1
        return box
    put(a)
    return put(b)


def want_ne_default_dict(a: 'any', b: 'any'):
    return {b: 1}


def got_ne_loop_else(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            break
    else:
        return 1
    return 2


def want_ne_loop_else(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            return 1
    return 2


def got_ne_accumulate(d: 'map:num'):
    total = 0
    for k in d:
        total += d[k]
    return total


def want_ne_accumulate(d: 'map:num'):
    total = 0
    for k in d:
        total = d[k]
    return total


def got_ne_carry(d: 'map', e: 'map'):
    out, last = {}, None
    for k in d:
        out[k] = last
        last = d[k]
    return out


def want_ne_carry(d: 'map', e: 'map'):
    out, last = {}, None
    for k in d:
        last = d[k]
        out[k] = last
    return out


def got_ne_flag_reset(d: 'map', e: 'map'):
    out, flag = {}, False
    for k in d:
        if k in e:
            flag = True
        out[k] = flag
    return out


def want_ne_flag_reset(d: 'map', e: 'map'):
    out = {}
    for k in d:
        flag = False
        if k in e:
            flag = True
        out[k] = flag
    return out


def got_ne_zip(a: 'list', b: 'list'):
    return [x for x, y in zip(a, b)]


def want_ne_zip(a: 'list', b: 'list'):
    return [x for x in a]


def got_ne_swap(a: 'any', b: 'any'):
    a, b = b, a
    return a, b


def want_ne_swap(a: 'any', b: 'any'):
    a = b
    b = a
    return a, b


def got_ne_and_or(a: 'any', b: 'any'):
    return a or b


def want_ne_and_or(a: 'any', b: 'any'):
    return a and b


def got_ne_int_div(a: 'num', b: 'num'):
    return a // b


def want_ne_int_div(a: 'num', b: 'num'):
    return a / b


def got_ne_strict(a: 'num', b: 'num'):
    return a < b


def want_ne_strict(a: 'num', b: 'num'):
    return a <= b


def got_ne_reversed(a: 'list'):
    return [x for x in reversed(a)]


def want_ne_reversed(a: 'list'):
    return [x for x in a]


def got_ne_slice(a: 'list'):
    return a[1:]


def want_ne_slice(a: 'list'):
    return a[:-1]


def got_ne_continue(d: 'map', e: 'map'):
    out = {}
    for k in d:
        if k in e:
            continue
        out[k] = 1
    return out


def want_ne_continue(d: 'map', e: 'map'):
    out = {}
    for k in d:
        out[k] = 1
    return out


def got_ne_setdefault(d: 'map', k: 'any'):
    out = dict(d)
    out.setdefault(k, 1)
    return out


def want_ne_setdefault(d: 'map', k: 'any'):
    out = dict(d)
    out[k] = 1
    return out


def got_ne_update_order(d: 'map', e: 'map'):
    out = dict(d)
    out.update(e)
    return out


def want_ne_update_order(d: 'map', e: 'map'):
    out = dict(e)
    out.update(d)
    return out


def got_ne_while(n: 'num', d: 'map'):
    i, out = 0, []
    while i < n:
        out.append(i)
        i += 1
    return out


def want_ne_while(n: 'num', d: 'map'):
    i, out = 0, []
    while i <= n:
        out.append(i)
        i += 1
    return out


def got_ne_nested_return(d: 'map', e: 'map'):
    for k in d:
        for j in e:
            if d[k] == e[j]:
                return k
    return None


def want_ne_nested_return(d: 'map', e: 'map'):
    for k in d:
        for j in e:
            if d[k] == e[j]:
                return j
    return None


def got_ne_nested_break(d: 'map', e: 'map'):
    out = []
    for k in d:
        for j in e:
            if d[k] == e[j]:
                break
        else:
            out.append(k)
    return out


def want_ne_nested_break(d: 'map', e: 'map'):
    out = []
    for k in d:
        for j in e:
            if d[k] == e[j]:
                out.append(k)
                break
    return out


def got_ne_any(d: 'map', e: 'map'):
    return any(k in e for k in d)


def want_ne_any(d: 'map', e: 'map'):
    return all(k in e for k in d)


def got_ne_mutate_loop(d: 'map', e: 'map'):
    out = []
    row = {}
    for k in d:
        row['k'] = k
        out.append(row)
    return out


def want_ne_mutate_loop(d: 'map', e: 'map'):
    out = []
    for k in d:
        row = {}
        row['k'] = k
        out.append(row)
    return out


def got_ne_raise_type(d: 'map'):
    """ | exc=KeyError"""
    if 'a' not in d:
        raise KeyError()


def want_ne_raise_type(d: 'map'):
    if 'a' not in d:
        raise ValueError()


def got_ne_guard(d: 'map', e: 'map'):
    for k in d:
        if k in e and d[k] is not e[k]:
            raise ValueError()


def want_ne_guard(d: 'map', e: 'map'):
    for k in d:
        if k not in e or d[k] is not e[k]:
            raise ValueError()


def got_ne_last(d: 'list'):
    x = None
    for x in d:
        pass
    return x


def want_ne_last(d: 'list'):
    for x in d:
        return x
    return None


def got_ne_count(d: 'map', e: 'map'):
    n = 0
    for k in d:
        if k in e:
            n += 1
    return n


def want_ne_count(d: 'map', e: 'map'):
    n = 0
    for k in d:
        n += 1
    return n


def got_ne_early_raise(d: 'map', e: 'map'):
    """ | heap=e"""
    for k in d:
        if k in e:
            raise ValueError()
        e[k] = d[k]


def want_ne_early_raise(d: 'map', e: 'map'):
    for k in d:
        e[k] = d[k]


def got_ne_unhashed(d: 'map', a: 'any'):
    x = {'p': a}
    y = x
    y['p'] = 2
    return x['p']


def want_ne_unhashed(d: 'map', a: 'any'):
    return a


def got_ne_starargs(a: 'any', b: 'any'):
    def f(*xs):
        return xs[0]
    return f(a, b)


def want_ne_starargs(a: 'any', b: 'any'):
    def f(*xs):
        return xs[-1]
    return f(a, b)


def got_ne_try_else(d: 'map', e: 'map'):
    for k in d:
        try:
            x = e[k]
        except KeyError:
            continue
        return x


def want_ne_try_else(d: 'map', e: 'map'):
    for k in d:
        try:
            return e[k]
        except KeyError:
            return None


def got_ne_try_loop(d: 'map', e: 'map'):
    out = {}
    try:
        for k in d:
            out[k] = e[k]
    except KeyError:
        pass
    return out


def want_ne_try_loop(d: 'map', e: 'map'):
    out = {}
    for k in d:
        try:
            out[k] = e[k]
        except KeyError:
            pass
    return out


def got_ne_walrus(d: 'map'):
    if (n := len(d)) > 2:
        return n
    return 0


def want_ne_walrus(d: 'map'):
    if len(d) >= 2:
        return len(d)
    return 0


def got_ne_sorted(d: 'list'):
    return sorted(d)


def want_ne_sorted(d: 'list'):
    return sorted(d, reverse=True)


def got_ne_enumerate(d: 'list'):
    return [i for i, x in enumerate(d)]


def want_ne_enumerate(d: 'list'):
    return [i for i, x in enumerate(d, 1)]


def got_ne_minmax(a: 'num', b: 'num'):
    return max(a, b)


def want_ne_minmax(a: 'num', b: 'num'):
    return min(a, b)


def got_ne_intersect(d: 'map', e: 'map'):
    return {k: d[k] for k in set(d) & set(e)}


def want_ne_intersect(d: 'map', e: 'map'):
    return {k: d[k] for k in set(d) | set(e) if k in d}


def got_ne_symdiff(d: 'map', e: 'map'):
    return set(d).difference(e)


def want_ne_symdiff(d: 'map', e: 'map'):
    return set(d).symmetric_difference(e)


def got_ne_cond_first(d: 'map', e: 'map'):
    """ | heap=e"""
    first = True
    for k in d:
        if first:
            e[k] = d[k]
            first = False


def want_ne_cond_first(d: 'map', e: 'map'):
    for k in d:
        e[k] = d[k]


def got_ne_closure_state(d: 'map'):
    n = [0]

    def tick():
        n[0] += 1
        return n[0]
    tick()
    return tick()


def want_ne_closure_state(d: 'map'):
    return 1


def got_ne_inherit(d: 'map'):
    class A(object):
        def f(self):
            return 1

    class B(A):
        def f(self):
            return super(B, self).f() + 1
    return B().f()


def want_ne_inherit(d: 'map'):
    return 1


def got_ne_raise_in_else(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            return 1
    else:
        raise ValueError()


def want_ne_raise_in_else(d: 'map', e: 'map'):
    for k in d:
        if k in e:
            return 1
    return 1


class Built1(object):
    def __init__(self, d):
        self.p = {}
        for name, value in d.items():
            self.p[name] = {'dims': value.dims, 'units': value.attrs['units']}


class Built2(object):
    def __init__(self, d):
        self.q = d.copy()
        self.p = {}
        for name, value in self.q.items():
            self.p[name] = {'dims': value.dims}


class Built3(object):
    def __init__(self, d):
        self.q = d.copy()
        self.p = {}
        for name, value in self.q.items():
            self.p[name] = {'dims': value.dims, 'units': value.attrs['units']}
        self.check()

    @property
    def props(self):
        return self.p

    def check(self):
        for k in self.props.keys():
            if self.props[k]['dims'] is None:
                raise ValueError()


def got_eq_attr_dict_built(d: 'map'):
    return Built1(d).p


def want_eq_attr_dict_built(d: 'map'):
    return {k: {'dims': d[k].dims, 'units': d[k].attrs['units']} for k in d}


def got_eq_attr_dict_built2(d: 'map'):
    return Built2(d).p


def want_eq_attr_dict_built2(d: 'map'):
    return {k: {'dims': d[k].dims} for k in d}


def got_eq_attr_dict_built3(d: 'map'):
    return Built3(d).props


def want_eq_attr_dict_built3(d: 'map'):
    for k in d:
        if d[k].dims is None:
            raise ValueError()
    return {k: {'dims': d[k].dims, 'units': d[k].attrs['units']} for k in d}


class Built4(object):
    def __init__(self, d, e=None):
        self.__tendencies = d.copy()
        if e is not None:
            self.__q = e.copy()
        else:
            self.__q = {}
        self.__p = {}
        for name, value in self.__q.items():
            self.__p[name] = {'dims': value.dims, 'units': value.attrs['units']}

    @property
    def props(self):
        return self.__p


def got_eq_attr_dict_built4(d: 'map', e: 'map'):
    return Built4(d, e).props


def want_eq_attr_dict_built4(d: 'map', e: 'map'):
    return {k: {'dims': e[k].dims, 'units': e[k].attrs['units']} for k in e}


def built5_check(obj):
    for name, properties in obj.props.items():
        if 'units' not in properties.keys():
            raise ValueError()
        if 'dims' not in properties.keys() and name not in {}.keys():
            raise ValueError()


def got_eq_attr_dict_built5(d: 'map', e: 'map'):
    b = Built4(d, e)
    built5_check(b)
    return b.props


def want_eq_attr_dict_built5(d: 'map', e: 'map'):
    return {k: {'dims': e[k].dims, 'units': e[k].attrs['units']} for k in e}


def got_eq_attr_dict_built6(d: 'map', e: 'map'):
    b = Built4(d, e)
    for name, properties in b.props.items():
        if 'alias' in properties.keys():
            raise ValueError()
    return b.props


def want_eq_attr_dict_built6(d: 'map', e: 'map'):
    return {k: {'dims': e[k].dims, 'units': e[k].attrs['units']} for k in e}


def got_eq_attr_dict_built7(d: 'map', e: 'map'):
    b = Built4(d, e)
    for name in set(b.props.keys()).intersection({}.keys()):
        if b.props[name]['units'] != 's':
            raise ValueError()
    return b.props


def want_eq_attr_dict_built7(d: 'map', e: 'map'):
    return {k: {'dims': e[k].dims, 'units': e[k].attrs['units']} for k in e}


def got_eq_items_mutated(d: 'map', e: 'map'):
    b = Built4(d, e)
    for name, properties in b.props.items():
        properties['alias'] = name
    return b.props


def want_eq_items_mutated(d: 'map', e: 'map'):
    return {k: {'dims': e[k].dims, 'units': e[k].attrs['units'], 'alias': k} for k in e}


def got_eq_items_reassigned(d: 'map', e: 'map'):
    b = Built4(d, e)
    for name, properties in b.props.items():
        b.props[name] = {'dims': properties['dims']}
    return b.props


def want_eq_items_reassigned(d: 'map', e: 'map'):
    return {k: {'dims': e[k].dims} for k in e}


def got_eq_values_listed(d: 'map', e: 'map'):
    return [p['units'] for p in Built4(d, e).props.values() if p['dims'] is not None]


def want_eq_values_listed(d: 'map', e: 'map'):
    return [e[k].attrs['units'] for k in e if e[k].dims is not None]
