"""C23 stacked mappings are the mapping below with the changes on top."""

from wizard.utils.mappings import StackMutableMapping

BOUNDS = {
    "quick": "histories of up to 3 operations (set, delete, pop, setdefault, clear; of 2 also update and pop with default as the first) on any of 1..2 stacked mappings, 2 operations on any of 3, "
    "starting with 2 keys set below, with arbitrary keys out of 3 and arbitrary integer values; everything read at every level at the end; histories of 4 operations (set, delete, pop) on one mapping with 2 keys, and of 5 on two with one key",
    "thorough": "histories of up to 4 operations on any of 1..2 and 3 on any of 3 stacked mappings",
}
ASSUMPTIONS = [
    "the order of iteration is outside the claim",
    "setting a key in a mapping below after it was deleted above, where it was not set below, is outside the claim",
]
COVERS = {"all": ["set", "replace", "shadow", "delete", "delete-below", "delete-missing", "again", "clear", "setdefault", "seen-through", "hidden"]}
OPTIONS = {"max_steps": 5000000}

GONE = object()


class Model:
    """every level is a list of (key, value), value may be GONE"""

    def __init__(self, levels):
        self.levels = [[] for _ in range(levels)]
        self.loose = [[] for _ in range(levels)]

    def own(self, n, k):
        for i, (key, _) in enumerate(self.levels[n]):
            if key == k:
                return i
        return None

    def get(self, n, k):
        while n >= 0:
            i = self.own(n, k)
            if i is not None:
                return self.levels[n][i][1]
            n -= 1
        return GONE

    def put(self, n, k, v):
        i = self.own(n, k)
        if i is None:
            self.levels[n].append((k, v))
        else:
            self.levels[n][i] = (k, v)

    def view(self, n):
        out = []
        for level in range(n + 1):
            for k, v in self.levels[level]:
                at = None
                for i, (key, _) in enumerate(out):
                    if key == k:
                        at = i
                        break
                if at is None:
                    out.append((k, v))
                else:
                    out[at] = (k, v)
        return [(k, v) for k, v in out if v is not GONE]


def read(S, maps, model, probe):
    for n, m in enumerate(maps):
        want = model.view(n)
        S.check(len(m) == len(want), "wrong number of keys")
        keys = [k for k in m]
        S.check(len(keys) == len(want), "wrong number of keys when iterating")
        for k in keys:
            S.check(S.any(*[k == w for w, _ in want]), "a key that is not there")
        for k, v in want:
            S.check(k in m, "a key is missing")
            S.check(S.same(m[k], v), "wrong value")
        v = model.get(n, probe)
        S.check(S.same(bool(probe in m), v is not GONE), "wrong membership")
        if v is GONE:
            try:
                m[probe]
            except KeyError:
                S.check(m.get(probe, None) is None, "wrong default")
            else:
                S.fail("a missing key has a value")


def history(S, levels, count, first, at, ops=("set", "del", "pop", "setdefault", "clear"), keys="abc"):
    maps = []
    for n in range(levels):
        maps.append(StackMutableMapping(maps[-1] if maps else None))
    model = Model(levels)
    for k in "ab":
        v = S.int("v" + k)
        maps[0][k] = v
        model.put(0, k, v)
    for i in range(count):
        op = first if i == 0 else S.choice(f"op{i}", ops)
        n = at if i == 0 else S.choice(f"level{i}", range(levels))
        m = maps[n]
        k = S.str(f"k{i}", 1, chars=keys, minlen=1) if len(keys) > 1 else keys
        old = model.get(n, k)
        if op in ("set", "setdefault", "update"):
            # not claimed: see ASSUMPTIONS
            for up in range(n + 1, levels):
                for l in model.loose[up]:
                    S.assume(l != k)
            v = S.int(f"v{i}")
            if op == "setdefault":
                S.cover("setdefault")
                got = m.setdefault(k, v)
                S.check(S.same(got, v if old is GONE else old), "setdefault is wrong")
                if old is GONE:
                    model.put(n, k, v)
            else:
                S.cover("set" if old is GONE else "replace" if model.own(n, k) is not None else "shadow")
                if model.own(n, k) is not None and old is GONE:
                    S.cover("again")
                if op == "set":
                    m[k] = v
                else:
                    m.update([(k, v)])
                model.put(n, k, v)
        elif op in ("del", "pop", "pop default"):
            try:
                if op == "del":
                    del m[k]
                elif op == "pop":
                    got = m.pop(k)
                    S.check(S.same(got, old), "pop is wrong")
                else:
                    got = m.pop(k, None)
                    S.check(S.same(got, None if old is GONE else old), "pop is wrong")
                    if old is GONE:
                        S.cover("delete-missing")
                        continue
            except KeyError:
                S.cover("delete-missing")
                S.check(old is GONE, "a key could not be deleted")
            else:
                S.check(old is not GONE, "a missing key was deleted")
                S.cover("delete" if model.own(n, k) is not None else "delete-below")
                if n == 0 or model.get(n - 1, k) is GONE:
                    model.loose[n].append(k)
                model.put(n, k, GONE)
        else:
            S.cover("clear")
            m.clear()
            for key, _ in model.view(n):
                if n == 0 or model.get(n - 1, key) is GONE:
                    model.loose[n].append(key)
                model.put(n, key, GONE)
        for up in range(n + 1, levels):
            S.cover("seen-through" if model.own(up, k) is None else "hidden")
    read(S, maps, model, k)


def jobs(tier):
    q = tier == "quick"
    for first in ("set", "del", "pop"):
        yield f"long {first}", "history", {"levels": 1, "count": 4 if q else 5, "first": first, "at": 0, "ops": ("set", "del", "pop"), "keys": "ac"}
        for at in (0, 1):
            for key in "ac":
                yield f"long 2 {first} {at} {key}", "history", {"levels": 2, "count": 5 if q else 6, "first": first, "at": at, "ops": ("set", "del", "pop"), "keys": key}
    for levels in (1, 2, 3):
        for count in range(1, (3, 3, 2)[levels - 1] + (1 if q else 2)):
            for first in ("set", "update", "del", "pop", "pop default", "setdefault", "clear"):
                if q and count == 3 and first not in ("set", "del", "clear"):
                    continue
                for at in range(levels):
                    yield f"{levels} {count} {first} {at}", "history", {"levels": levels, "count": count, "first": first, "at": at}
