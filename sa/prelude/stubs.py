"""Library classes PyFLP builds on, written in the analysed subset.

Read (never imported) by the analyser: models of collections.UserDict/UserList,
sortedcontainers.SortedList and a few helpers with the library's semantics."""


class UserDict:
    def __init__(self, dict=None, **kwargs):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        raise KeyError(key)

    def __setitem__(self, key, item):
        self.data[key] = item

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def keys(self):
        return list(self.data.keys())

    def items(self):
        return [(k, self[k]) for k in self.data]

    def values(self):
        return [self[k] for k in self.data]

    def update(self, other=(), **kwds):
        for k, v in other.items():
            self[k] = v
        for k, v in kwds.items():
            self[k] = v

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default

    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        else:
            del self[key]
            return value

    def copy(self):
        return dict(self.data)


class UserList:
    def __init__(self, initlist=None):
        self.data = []
        if initlist is not None:
            self.data = list(initlist)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]

    def __setitem__(self, i, item):
        self.data[i] = item

    def __delitem__(self, i):
        del self.data[i]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, item):
        return item in self.data

    def append(self, item):
        self.data.append(item)

    def insert(self, i, item):
        self.data.insert(i, item)

    def pop(self, i=-1):
        return self.data.pop(i)

    def remove(self, item):
        self.data.remove(item)

    def clear(self):
        self.data.clear()

    def index(self, item, *args):
        return self.data.index(item, *args)

    def count(self, item):
        return self.data.count(item)

    def extend(self, other):
        self.data.extend(other)

    def reverse(self):
        self.data.reverse()


class SortedList:
    def __init__(self, iterable=None, key=None):
        self._l = []
        self._key = key
        if iterable is not None:
            self._l = sorted(iterable, key=key)

    def add(self, value):
        i = len(self._l)
        while i > 0 and self._lt(value, self._l[i - 1]):
            i -= 1
        self._l.insert(i, value)

    def _lt(self, a, b):
        if self._key is not None:
            return self._key(a) < self._key(b)
        return a < b

    def update(self, iterable):
        for x in iterable:
            self.add(x)

    def remove(self, value):
        i = 0
        while i < len(self._l) and self._lt(self._l[i], value):
            i += 1
        if i < len(self._l) and self._l[i] == value:
            del self._l[i]
            return
        raise ValueError("not in list")

    def discard(self, value):
        i = 0
        while i < len(self._l) and self._lt(self._l[i], value):
            i += 1
        if i < len(self._l) and self._l[i] == value:
            del self._l[i]

    def pop(self, index=-1):
        return self._l.pop(index)

    def clear(self):
        self._l.clear()

    def index(self, value):
        return self._l.index(value)

    def count(self, value):
        return self._l.count(value)

    def bisect_left(self, value):
        i = 0
        while i < len(self._l) and self._lt(self._l[i], value):
            i += 1
        return i

    def bisect_right(self, value):
        i = len(self._l)
        while i > 0 and self._lt(value, self._l[i - 1]):
            i -= 1
        return i

    bisect = bisect_right

    def __contains__(self, value):
        i = 0
        while i < len(self._l) and self._lt(self._l[i], value):
            i += 1
        return i < len(self._l) and self._l[i] == value

    def __len__(self):
        return len(self._l)

    def __iter__(self):
        return iter(self._l)

    def __getitem__(self, i):
        return self._l[i]

    def __delitem__(self, i):
        del self._l[i]

    def __reversed__(self):
        return reversed(self._l)

    def __eq__(self, o):
        if not isinstance(o, (SortedList, list, tuple)):
            return NotImplemented
        return list(self._l) == list(o)


class cached_property:
    def __init__(self, func):
        self.func = func
        self.attrname = None

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, ins, owner=None):
        if ins is None:
            return self
        v = self.func(ins)
        _set_instance_attr(ins, self.attrname, v)
        return v


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _cached(maxsize)
    return _cached


def _cached(func):
    memo = {}

    def wrapper(*args):
        for k in memo:
            if _all_same(k, args):
                return memo[k]
        r = func(*args)
        memo[args] = r
        return r

    return wrapper


def _all_same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is not y and not x == y:
            return False
    return True


class Counter(dict):
    pass
