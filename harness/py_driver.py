"""P01, P02: what the embedded interpreter does. The simulator calls generate() to make up operations, and a World to
perform them on the real bindings and to compare what they do with a reference: NumPy on an in-memory copy (P01), the
content recorded so far and who still holds what (P02)."""
import gc
import itertools
import warnings

import numpy as np

import lue_py
import simpy

ldm = lue_py.data_model
warnings.simplefilter("ignore")
gc.disable()
gc.freeze()

PATH = "/simfs/p.lue"
DTYPES = [np.dtype(t) for t in ("u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "f4", "f8")]


class Violation(Exception):
    def __init__(self, cls, text):
        super().__init__(cls + ": " + text)
        self.cls = cls
        self.text = text[:1500]


def below(n):
    return simpy.below(n)


def chance(p):
    return simpy.below(1000) < p * 1000


def values(seed, shape, dtype):
    """Made up values that every element type can represent"""
    n = int(np.prod(shape, dtype=np.int64))
    x = (np.arange(n, dtype=np.uint64) * np.uint64(2654435761) + np.uint64(seed % 1000003) * np.uint64(40503)) >> np.uint64(7)
    x = (x % np.uint64(101)).astype(np.int64)
    if dtype.kind != "u":
        x = np.where(x % 3 == 0, -x, x)
    if dtype.kind == "f":
        x = x / 4
    return x.astype(dtype).reshape(shape)


def short(exception):
    return ("%s: %s" % (type(exception).__name__, exception)).split("\n")[0][:200]


# ---------------------------------------------------------------------------------------------------------------- P01
# kinds of indices along a dimension
INT, NEG, OUT, SLICE, BACK, DOTS, ALL, NPINT, OTHER, ZERO = range(10)


def index_along(t, a, b, c, n):
    if t == INT:
        return a % n if n else 0
    if t == NEG:
        return -1 - (a % n) if n else -1
    if t == OUT:
        far = [n, n + 1, -n - 1, -n - 2, n + 1000, -n - 1000, 2**31, -2**31, 2**62, -2**63]
        return far[a % len(far)]
    if t in (SLICE, BACK):
        def bound(x):
            return None if x % 5 == 0 else x // 5 % (2 * n + 5) - n - 2
        step = 1 + c // 4 % (n + 2)
        if t == BACK:
            step = -step
        elif c % 4 == 0:
            step = None
        elif c % 37 == 1:
            step = 2**40
        return slice(bound(a), bound(b), step)
    if t == DOTS:
        return Ellipsis
    if t == ALL:
        return slice(None)
    if t == NPINT:
        return np.int64(a % n if n else 0)
    if t == ZERO:
        return slice(None, None, 0)
    other = ["abc", 1.5, None, [0, 0], np.array([0, 0]), [0], (0, 0), b"x", 1j, {0}, [slice(None)], "0:1", [0, 0, 0]]
    return other[a % len(other)]


def gen_dims(nr):
    dims = []
    for _ in range(nr):
        x = below(100)
        t = INT if x < 18 else NEG if x < 30 else OUT if x < 35 else SLICE if x < 72 else BACK if x < 77 else DOTS if x < 80 else \
            ALL if x < 90 else NPINT if x < 93 else OTHER if x < 98 else ZERO
        dims += [t, below(1 << 20), below(1 << 20), below(1 << 20)]
    return dims


def gen_expression():
    style = 0 if chance(0.4) else 1
    nr = 1 if style == 0 else [0, 1, 2, 2, 3, 3, 4, 5][below(8)]
    return [style] + gen_dims(nr)


def expression(a, shape):
    style, dims = a[0], a[1:]
    parts = []
    ok = True
    for i in range(len(dims) // 4):
        t, x, y, z = dims[4 * i:4 * i + 4]
        n = shape[i] if i < len(shape) else 1
        parts.append(index_along(t, x, y, z, n))
        ok = ok and t in (INT, NEG, SLICE, ALL)
    if style == 0:
        return parts[0], ok
    return tuple(parts), ok and len(parts) <= len(shape)


def generate_p01(first):
    ops = []
    nr = 1 + below(3)
    for _ in range(nr):
        ops.append(gen_array())
    text = chance(0.3)
    if text:
        ops.append(("strings", [1 + below(5), below(1 << 20), below(4)]))
    for _ in range(8 + below(40)):
        x = below(100)
        if x < 40:
            ops.append(("get", [below(64)] + gen_expression()))
        elif x < 84:
            vkind = [0, 0, 1, 2, 2, 2, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9][below(17)]
            ops.append(("set", [below(64), vkind, below(1 << 20)] + gen_expression()))
        elif x < 90:
            ops.append(("reopen", [below(3), below(2)]))
        elif x < 95:
            ops.append(gen_array())
        elif x < 98:
            ops.append(("expand", [below(64), 1 + below(3), below(1 << 20)]))
        else:
            ops.append(("gc", []))
        if chance(0.6 if text else 0.1):
            x = below(12)
            if x < 1:
                ops.append(("strings", [below(6), below(1 << 20), below(4)]))
            elif x < 7:
                ops.append(("write_strings", [below(64), below(4), below(1 << 20)] + gen_expression()))
            else:
                ops.append(("read_strings", [below(64)] + gen_expression()))
    return ops


LETTERS = ["a", "b", "Z", "0", " ", "\u00e9", "\u20ac", "\U0001d11e", "\u0142"]


def strings(seed, shape, kind):
    n = int(np.prod(shape, dtype=np.int64))
    result = []
    for i in range(n):
        x = (seed * 7919 + i * 104729) % 1000003
        length = [1, 0, 3, 2, 9, 5, 30][x % 7]
        letters = LETTERS[:5] if kind else LETTERS
        result.append("".join(letters[(x // 7 + 3 * j + j * j) % len(letters)] for j in range(length)))
    a = np.array(result, dtype=np.str_).reshape(shape) if n else np.zeros(shape, dtype="U1")
    return a.astype(np.bytes_) if kind else a


def gen_array():
    form = [0, 0, 0, 1, 2, 3, 4, 5][below(8)]
    rank = [0, 1, 1, 2, 2, 3][below(6)]
    sizes = [1 + below(6) for _ in range(rank)]
    return ("array", [form, below(len(DTYPES)), below(7) if chance(0.9) else below(600), below(1 << 20)] + sizes)


class Stored:
    """An array in the dataset: how to get at it, and what it holds"""

    def __init__(self, get, model, grow=None):
        self.get = get
        self.array = None
        self.model = model
        self.grow = grow
        self.unknown = False
        self.written = False


class World01:
    def __init__(self):
        self.arrays = []
        self.texts = []
        self.ds = None
        self.writable = False
        self.tainted = False
        self.nr = 0
        was = simpy.faults(False)
        self.ds = ldm.create_dataset(PATH)
        self.writable = True
        simpy.faults(was)

    # -- faults: what was stored when writing failed is not known. Nothing is compared any more then
    def write_failed(self):
        if simpy.faults_fired() != simpy.faults_fired_reading() + self.benign_opens:
            self.tainted = True
        return self.tainted

    benign_opens = 0
    stale = False

    def step(self, kind, a):
        if self.tainted or (self.stale and kind in ("array", "expand", "set", "strings", "write_strings")):
            return
        before = simpy.faults_fired(), simpy.faults_fired_reading()
        getattr(self, "do_" + kind)(a)
        after = simpy.faults_fired(), simpy.faults_fired_reading()
        other = (after[0] - before[0]) - (after[1] - before[1])
        if other and kind != "reopen":
            self.tainted = True
        if after != before and kind in ("array", "expand", "strings", "write_strings"):
            self.tainted = True  # HDF5 does not recover from failing to read while changing the file's structure

    def failing(self):
        return simpy.faults_fired() != self.fired

    def attempt(self, f):
        self.fired = simpy.faults_fired()
        try:
            return f(), None
        except Violation:
            raise
        except Exception as e:
            e.__traceback__ = None
            # HDF5 serves later reads of an array from the buffer that a failing read did not fill
            self.stale = self.stale or self.failing()
            return None, e

    def do_gc(self, a):
        gc.collect()

    def do_array(self, a):
        if self.ds is None or not self.writable:
            return
        form, dtype, nr, seed = a[0], DTYPES[a[1]], a[2], a[3]
        sizes = tuple(a[4:])
        name = "n%d" % self.nr
        self.nr += 1
        ds = self.ds

        def make():
            phenomenon = ds.add_phenomenon(name)
            if form == 3:
                phenomenon.object_id.expand(nr)
                shape = (nr,)
                return (lambda: self.ds.phenomena[name].object_id), np.dtype("u8"), shape, True
            if form == 0:
                ps = phenomenon.add_property_set("s")
                ps.add_property("p", dtype, sizes).value.expand(nr)
                return (lambda: self.ds.phenomena[name].property_sets["s"].properties["p"].value), dtype, (nr,) + sizes, True
            if form in (1, 4, 5):
                own = sizes or (2,)
                n = 1 + nr % 4
                which = seed % n
                ps = phenomenon.add_property_set("s")
                if form == 1:
                    value = ps.add_property("p", dtype, len(own)).value
                    value.expand(np.arange(n, dtype=np.uint64) + 10, np.array([own] * n, dtype=np.uint64))
                    return (lambda: self.ds.phenomena[name].property_sets["s"].properties["p"].value[which + 10]), dtype, own, False
                clock = ldm.Clock(ldm.Unit.day, 1)
                ps = phenomenon.add_property_set("t", ldm.TimeConfiguration(ldm.TimeDomainItemType.point), clock)
                if form == 4:
                    value = ps.add_property("p", dtype, len(own), ldm.ShapePerObject.different, ldm.ShapeVariability.constant).value
                    for i in range(n):
                        value.expand(i, own, 3)
                    return (lambda: self.ds.phenomena[name].property_sets["t"].properties["p"].value[which]), dtype, (3,) + own, False
                value = ps.add_property("p", dtype, own, ldm.ValueVariability.variable).value
                value.expand(nr)
                return (lambda: self.ds.phenomena[name].property_sets["t"].properties["p"].value), dtype, (nr,) + own, True
            ps = phenomenon.add_property_set("s")
            prop = ps.add_property("p", dtype)
            prop.value.expand(nr)
            return (lambda: self.ds.phenomena[name].property_sets["s"].properties["p"].value), dtype, (nr,), True

        made, e = self.attempt(make)
        if e is not None:
            if not self.failing():
                raise Violation("creation-failed", "creating an array of form %d, %s %s: %s" % (form, dtype, sizes, short(e)))
            return
        get, dtype, shape, growable = made
        stored = Stored(get, None, growable)
        array, e = self.attempt(get)
        if e is not None:
            if not self.failing():
                raise Violation("creation-failed", "obtaining an array: " + short(e))
            return
        stored.array = array
        # known content first
        model = values(seed, shape, dtype)
        _, e = self.attempt(lambda: array.__setitem__(slice(None), model))
        if e is not None:
            if not self.failing():
                raise Violation("assignment-failed", "assigning all elements of a %s array of %s: %s" % (shape, dtype, short(e)))
            return
        stored.model = model.copy()
        self.verify(stored, "after creation")
        self.arrays.append(stored)

    # ---- strings
    def do_strings(self, a):
        if self.ds is None or not self.writable:
            return
        nr, seed, second = a
        shape = (nr,) if second else (nr, 2)
        name = "t%d" % self.nr
        self.nr += 1
        ds = self.ds

        def make():
            ps = ds.add_phenomenon(name).add_property_set("s")
            prop = ps.add_property("p", np.str_) if second else ps.add_property("p", np.str_, (2,))
            prop.value.expand(nr)
        _, e = self.attempt(make)
        if e is not None:
            if not self.failing():
                raise Violation("creation-failed", "creating an array of strings: " + short(e))
            return
        self.texts.append(Stored(lambda: self.ds.phenomena[name].property_sets["s"].properties["p"].value, np.full(shape, "", dtype=object)))

    def pick_text(self, i):
        if self.ds is None or not self.texts:
            return None, None
        stored = self.texts[i % len(self.texts)]
        array, e = self.attempt(stored.get)
        if e is not None:
            if not self.failing():
                raise Violation("array-lost", "an array cannot be obtained: " + short(e))
            return None, None
        return stored, array

    def verify_strings(self, stored, what):
        if stored.unknown or self.stale:
            return
        was = simpy.faults(False)
        try:
            got = simpy.raw_strings(stored.get())
        except RuntimeError:
            if stored.written:
                raise
            return  # HDF5 cannot read strings before any has been written
        finally:
            simpy.faults(was)
        want = [x.encode("utf8") for x in stored.model.ravel()]
        got = [g or b"" for g in got]
        if got != want:
            raise Violation("stored-content", "%s: the strings stored are %r instead of %r" % (what, got, want))

    def do_read_strings(self, a):
        stored, array = self.pick_text(a[0])
        if stored is None:
            return
        expr, supported = expression(a[1:], stored.model.shape)
        try:
            want, refused = stored.model[expr], None
        except Exception as e:
            want, refused = None, e
        got, e = self.attempt(lambda: array[expr])
        text = "%s[%s]" % (describe_array(stored.model), describe_index(expr))
        if e is not None:
            if isinstance(e, SystemError):
                raise Violation("broken-call", "%s: %s" % (text, short(e)))
            if refused is None and supported and isinstance(want, np.ndarray) and stored.model.ndim == 1 and stored.written and not self.failing():
                raise Violation("rejected-index", "%s failed: %s" % (text, short(e)))
            simpy.log(type(e).__name__.encode())
            return
        if refused is not None:
            raise Violation("accepted-index", "%s is rejected by NumPy (%s) and returned %r" % (text, short(refused), got))
        simpy.probe("strings read")
        got = np.asarray(got)
        if got.shape != np.shape(want) or (got.tolist() != np.asarray(want, dtype=object).tolist() and not self.stale):
            raise Violation("wrong-elements", "%s returned %r instead of %r" % (text, got, want))
        self.verify_strings(stored, "after reading " + text)

    def do_write_strings(self, a):
        stored, array = self.pick_text(a[0])
        if stored is None:
            return
        expr, supported = expression(a[3:], stored.model.shape)
        if a[1] % 2:
            expr, supported = slice(None), True
        try:
            shape = np.shape(stored.model[expr])
        except Exception:
            shape = ()
        value = strings(a[2], shape, a[1] // 2)
        if a[2] % 11 == 0 and value.ndim:
            value = value[1:] if a[2] % 2 else np.concatenate([value, value[:1]])
        if a[2] % 13 == 0 and value.ndim:
            value = np.concatenate([value, value])[::2]
        want = stored.model.copy()
        try:
            want[expr] = value.astype(np.str_) if value.dtype.kind == "S" else value
            refused = None
        except Exception as e:
            refused, want = e, None
        _, e = self.attempt(lambda: array.__setitem__(expr, value))
        text = "%s[%s] = %r" % (describe_array(stored.model), describe_index(expr), value)
        failing = self.failing()
        if e is not None:
            if isinstance(e, SystemError):
                raise Violation("broken-call", "%s: %s" % (text, short(e)))
            if failing:
                stored.unknown = True
                return
            must = self.writable and refused is None and isinstance(expr, slice) and expr == slice(None) and stored.model.ndim == 1 and value.shape == shape
            if must:
                raise Violation("rejected-assignment", "%s failed: %s" % (text, short(e)))
        else:
            if not self.writable:
                if want is not None and want.tolist() != stored.model.tolist():
                    raise Violation("read-only", "%s succeeded in a dataset that is open for reading" % text)
                return
            if refused is not None:
                raise Violation("accepted-assignment", "%s is rejected by NumPy (%s) and accepted" % (text, short(refused)))
            simpy.probe("strings written")
            stored.written = stored.written or value.size > 0
            stored.model = want
        self.verify_strings(stored, "after " + text)

    def content(self, stored):
        was = simpy.faults(False)
        try:
            data = simpy.raw(stored.array)
        finally:
            simpy.faults(was)
        m = stored.model
        if len(data) != m.nbytes:
            raise Violation("stored-size", "%d bytes are stored instead of %d" % (len(data), m.nbytes))
        return np.frombuffer(data, dtype=m.dtype).reshape(m.shape)

    def verify(self, stored, what):
        if self.stale:
            return
        got = self.content(stored)
        if got.tobytes() != stored.model.tobytes():
            bad = np.argwhere(got != stored.model)
            raise Violation("stored-content", "%s: element %s of the stored array of shape %s (%s) is %r instead of %r" % (
                what, bad[0].tolist() if len(bad) else "?", stored.model.shape, stored.model.dtype,
                got[tuple(bad[0])] if len(bad) else None, stored.model[tuple(bad[0])] if len(bad) else None))

    def pick(self, i):
        if self.ds is None or not self.arrays:
            return None
        stored = self.arrays[i % len(self.arrays)]
        if stored.array is None:
            array, e = self.attempt(stored.get)
            if e is not None:
                if not self.failing():
                    raise Violation("array-lost", "an array cannot be obtained: " + short(e))
                return None
            stored.array = array
        return stored

    def do_get(self, a):
        stored = self.pick(a[0])
        if stored is None:
            return
        expr, supported = expression(a[1:], stored.model.shape)
        try:
            want, refused = stored.model[expr], None
        except Exception as e:
            want, refused = None, e
        got, e = self.attempt(lambda: stored.array[expr])
        text = "%s[%s]" % (describe_array(stored.model), describe_index(expr))
        simpy.state(("get %s %s %s" % (type(e).__name__, refused is None, supported)).encode())
        if e is None:
            simpy.probe("selections read")
            if refused is not None:
                raise Violation("accepted-index", "%s is rejected by NumPy (%s) and returned %r" % (text, short(refused), got))
            got = np.asarray(got)
            if got.shape != np.shape(want) or got.dtype != stored.model.dtype:
                raise Violation("wrong-shape", "%s returned %s of %s instead of %s of %s" % (text, got.shape, got.dtype, np.shape(want), stored.model.dtype))
            if got.tobytes() != np.asarray(want).tobytes() and not self.stale:
                raise Violation("wrong-elements", "%s returned %r instead of %r" % (text, got, want))
            simpy.log(got.tobytes())
        else:
            if isinstance(e, SystemError):
                raise Violation("broken-call", "%s: %s" % (text, short(e)))
            if refused is not None:
                simpy.probe("rejected indices")
            elif supported and not self.failing():
                raise Violation("rejected-index", "%s failed: %s" % (text, short(e)))
            simpy.log(type(e).__name__.encode())
        self.verify(stored, "after reading " + text)

    def value(self, vkind, seed, shape, dtype):
        """A value to assign, and whether assigning it to a supported selection has to work"""
        if vkind == 0:
            if seed % 4 == 1:
                # as large as fits the elements exactly
                bits = {"f": 24 if dtype.itemsize == 4 else 53, "u": min(8 * dtype.itemsize, 63), "i": 8 * dtype.itemsize - 1}[dtype.kind]
                large = (1 << bits) - 1 - seed // 4 % 8
                return -large if dtype.kind != "u" and seed // 32 % 2 else large, True
            return int(seed % 100) * (-1 if dtype.kind != "u" and seed % 3 == 0 else 1), True
        if vkind == 1:
            return float(seed % 100), True
        v = values(seed, shape, dtype)
        if vkind == 2:
            return v, True
        if vkind == 3:
            other = DTYPES[seed % len(DTYPES)]
            return np.abs(v).astype(np.int64 if dtype.kind != "f" else np.float64).round().astype(other), True
        if vkind == 4:
            if seed % 3 == 0:
                return v.ravel()[:1].reshape(()) if v.size else v, False
            if seed % 3 == 1 and v.ndim:
                return v[:1], False
            return v[0] if v.ndim and len(v) else v, False
        if vkind == 5:
            s = list(shape) or [1]
            k = seed % len(s)
            s[k] = s[k] + 1 if seed % 2 else max(s[k] - 1, 0)
            return values(seed, tuple(s), dtype), False
        if vkind == 6:
            if not shape:
                return v, True
            k = seed % len(shape)
            wide = values(seed, tuple(2 * n if i == k else n for i, n in enumerate(shape)), dtype)
            if seed % 2:
                return wide[tuple(slice(None, None, 2) if i == k else slice(None) for i in range(len(shape)))], True
            return np.asfortranarray(v), True
        if vkind == 7:
            return v.tolist(), False
        if vkind == 8:
            return v.reshape(-1) if seed % 2 else v.reshape((1,) + v.shape), False
        return [None, "abc", b"x", object(), {}, 1j][seed % 6], False

    def do_set(self, a):
        stored = self.pick(a[0])
        if stored is None:
            return
        vkind, seed = a[1], a[2]
        expr, supported = expression(a[3:], stored.model.shape)
        model = stored.model
        try:
            shape = np.shape(model[expr])
        except Exception:
            shape = model.shape[1:]
        value, must = self.value(vkind, seed, shape, model.dtype)
        if vkind <= 1 and not (isinstance(expr, (int, slice))):
            must = shape == ()
        want = model.copy()
        refused = None
        try:
            want[expr] = value
        except Exception as e:
            refused = e
            want = None
        if vkind == 9:
            must = False
        # NumPy does not take as many values in another shape. Accepting them is harmless
        same = None
        if refused is not None and isinstance(value, (np.ndarray, list)):
            same = model.copy()
            try:
                if np.size(same[expr]) == np.size(value):
                    same[expr] = np.asarray(value).reshape(np.shape(same[expr]))
                else:
                    same = None
            except Exception:
                same = None
        _, e = self.attempt(lambda: stored.array.__setitem__(expr, value))
        failing = self.failing()
        text = "%s[%s] = %s" % (describe_array(model), describe_index(expr), describe_value(value))
        simpy.state(("set %s %s %s %d" % (type(e).__name__, refused is None, supported, vkind)).encode())
        if not self.writable:
            if e is None and want is not None and want.tobytes() != model.tobytes():
                raise Violation("read-only", "%s succeeded in a dataset that is open for reading" % text)
            return
        if e is None:
            simpy.probe("selections assigned")
            if refused is not None and same is None:
                raise Violation("accepted-assignment", "%s is rejected by NumPy (%s) and accepted" % (text, short(refused)))
            stored.model = want if refused is None else same
            if failing:
                self.resync(stored, model)
            self.verify(stored, "after " + text)
            simpy.log(stored.model.tobytes())
            return
        if isinstance(e, SystemError):
            raise Violation("broken-call", "%s: %s" % (text, short(e)))
        simpy.log(type(e).__name__.encode())
        if failing:
            self.tainted = True  # what was written before the failure is not known
            return
        if refused is None and supported and must:
            raise Violation("rejected-assignment", "%s failed: %s" % (text, short(e)))
        if refused is not None:
            simpy.probe("rejected assignments")
        self.verify(stored, "after a failed %s (%s)" % (text, short(e)))

    def resync(self, stored, old):
        if simpy.faults_fired() != simpy.faults_fired_reading():
            self.tainted = True
            stored.model = self.content(stored).copy()

    def do_expand(self, a):
        stored = self.pick(a[0])
        if stored is None or not stored.grow or not self.writable:
            return
        n = a[1]
        model = stored.model
        _, e = self.attempt(lambda: stored.array.expand(n))
        if e is not None:
            if not self.failing():
                raise Violation("expand-failed", short(e))
            self.tainted = True
            return
        more = values(a[2], (n,) + model.shape[1:], model.dtype)
        _, e = self.attempt(lambda: stored.array.__setitem__(slice(len(model), None), more))
        if e is not None:
            if not self.failing():
                raise Violation("rejected-assignment", "assigning to the elements added: " + short(e))
            self.tainted = True
            return
        stored.model = np.concatenate([model, more])
        self.verify(stored, "after expanding")

    def do_reopen(self, a):
        fired = simpy.faults_fired()
        for stored in self.arrays:
            stored.array = None
        self.ds = None
        gc.collect()
        if simpy.open_descriptors(PATH):
            raise Violation("not-closed", "the dataset is still open after the last object was dropped")
        if simpy.faults_fired() != fired:
            self.tainted = True
            return
        self.stale = False
        mode = "r" if a[0] == 2 else "w"
        self.ds, e = self.attempt(lambda: ldm.open_dataset(PATH, mode))
        if e is not None and not self.failing():
            raise Violation("open-failed", short(e))
        if mode == "w" and self.failing():
            self.tainted = True  # HDF5 marks the file as being written
            return
        self.writable = mode == "w"
        if self.ds is not None and a[1] and not self.tainted:
            for i in range(len(self.arrays)):
                stored = self.pick(i)
                if stored is None:
                    return
                got, e = self.attempt(lambda: stored.array[:])
                if e is not None:
                    if not self.failing():
                        raise Violation("rejected-index", "reading all elements: " + short(e))
                elif (np.asarray(got).tobytes() != stored.model.tobytes() and not self.stale) or got.shape != stored.model.shape:
                    raise Violation("wrong-elements", "%s[:] after opening again: %r" % (describe_array(stored.model), got))
            for stored in self.texts:
                self.verify_strings(stored, "after opening again")

    def finish(self):
        simpy.faults(False)
        if self.tainted:
            return
        self.do_reopen([2, 1])


def describe_array(m):
    return "array(%s, %s)" % ("x".join(map(str, m.shape)), m.dtype)


def describe_index(expr):
    def one(x):
        if isinstance(x, slice):
            return ":".join("" if v is None else str(v) for v in (x.start, x.stop, x.step))
        return "..." if x is Ellipsis else repr(x)
    return "(%s,)" % ", ".join(map(one, expr)) if isinstance(expr, tuple) else one(expr)


def describe_value(v):
    if isinstance(v, np.ndarray):
        return "%s values of shape %s" % (v.dtype, v.shape)
    return repr(v)[:80]


def generate(profile, first):
    return generate_p01(first) if profile == "P01" else generate_p02(first)


def World(profile):
    return World01() if profile == "P01" else World02()


def describe(profile, kind, a):
    return "%s %s" % (kind, list(a))


# ---- P02: who holds what
def generate_p02(first):
    def any():
        return below(1 << 20)
    ops = []
    for _ in range(12 + below(60)):
        x = below(100)
        if x < 12:
            ops.append(("get", [any(), any()]))
        elif x < 34:
            ops.append(("chain", [any()] + [any() for _ in range(2 + below(7))]))
        elif x < 56:
            ops.append(("drop", [any()]))
        elif x < 61:
            ops.append(("drop_all_but", [any()]))
        elif x < 66:
            ops.append(("cycle", [any(), below(2)]))
        elif x < 71:
            ops.append(("gc", []))
        elif x < 77:
            ops.append(("churn", [below(4)]))
        elif x < 82:
            ops.append(("add", [any(), any(), any(), below(4)]))
        elif x < 88:
            ops.append(("grow", [any(), 1 + below(3), any()]))
        elif x < 93:
            ops.append(("write", [any(), any()]))
        elif x < 97:
            ops.append(("open", [below(4)]))
        else:
            ops.append(("drop_all", [any()]))
    return ops


class Item:
    """What is expected of an object in the dataset: its kind, the names of its parts, its content"""

    def __init__(self, kind, **rest):
        self.kind = kind
        self.__dict__.update(rest)


def new_array(nr, dtype, seed, shape=()):
    dtype = np.dtype(dtype)
    return Item("array", data=values(seed, (nr,) + tuple(shape), dtype), grows=True)


def new_phenomenon(description=""):
    return Item("phenomenon", sets={}, csets={}, description=description, object_id=Item("array", data=np.zeros((0,), np.uint64), grows=True))


def new_set(time=None, space=None, tracker=None):
    if tracker is None:
        tracker = Item("tracker", active_set_index=Item("array", data=np.zeros((0,), np.uint64), grows=True),
                       active_object_index=Item("array", data=np.zeros((0,), np.uint64), grows=True),
                       active_object_id=Item("array", data=np.zeros((0,), np.uint64), grows=True))
    return Item("set", props={}, time=time, space=space, tracker=tracker)


def routes(item):
    """The ways to get from an object to the objects it gives access to"""
    k = item.kind
    r = []
    if k == "dataset":
        r.append(("phenomena", lambda o: o.phenomena, Item("phenomena", parts=item.phenomena)))
        r.append(("universes", lambda o: o.universes, Item("universes", parts=item.universes)))
        for n in item.phenomena:
            r.append((n, lambda o, n=n: getattr(o, n), item.phenomena[n]))
        for n in item.universes:
            r.append((n, lambda o, n=n: getattr(o, n), item.universes[n]))
    elif k in ("phenomena", "universes", "sets", "properties"):
        for n in item.parts:
            r.append(("[%s]" % n, lambda o, n=n: o[n], item.parts[n]))
    elif k == "universe":
        r.append(("phenomena", lambda o: o.phenomena, Item("phenomena", parts=item.phenomena)))
        for n in item.phenomena:
            r.append((n, lambda o, n=n: getattr(o, n), item.phenomena[n]))
    elif k == "phenomenon":
        r.append(("property_sets", lambda o: o.property_sets, Item("sets", parts=item.sets)))
        r.append(("collection_property_sets", lambda o: o.collection_property_sets, Item("sets", parts=item.csets)))
        r.append(("object_id", lambda o: o.object_id, item.object_id))
        for n in item.sets:
            r.append((n, lambda o, n=n: getattr(o, n), item.sets[n]))
        for n in item.csets:
            r.append((n, lambda o, n=n: getattr(o, n), item.csets[n]))
    elif k == "set":
        r.append(("properties", lambda o: o.properties, Item("properties", parts=item.props)))
        r.append(("object_tracker", lambda o: o.object_tracker, item.tracker))
        if item.time:
            r.append(("time_domain", lambda o: o.time_domain, item.time))
        if item.space:
            r.append(("space_domain", lambda o: o.space_domain, item.space))
        for n in item.props:
            r.append((n, lambda o, n=n: getattr(o, n), item.props[n]))
    elif k == "tracker":
        for n in ("active_set_index", "active_object_index", "active_object_id"):
            r.append((n, lambda o, n=n: getattr(o, n), getattr(item, n)))
    elif k == "time":
        r.append(("clock", lambda o: o.clock, Item("clock", unit=item.unit, nr_units=item.nr_units)))
        r.append(("value", lambda o: o.value, item.value))
    elif k == "space":
        r.append(("configuration", lambda o: o.configuration, Item("space configuration")))
        r.append(("value", lambda o: o.value, item.value))
    elif k == "property":
        r.append(("value", lambda o: o.value, item.value))
    elif k == "different":
        for n in item.parts:
            r.append(("[%s]" % n, lambda o, n=n: o[n], item.parts[n]))
    if k not in ("clock", "space configuration", "id"):
        r.append(("id", lambda o: o.id, Item("id", of=item)))
    return r


UNITS = ["second", "day", "year"]


class World02:
    def __init__(self):
        self.handles = []       # (object, item, how it was obtained)
        self.fired = 0
        self.nr = 0
        self.writable = True
        self.tainted = False
        self.doubt = False
        was = simpy.faults(False)
        self.before = simpy.outstanding()
        self.root = Item("dataset", phenomena={}, universes={})
        ds = ldm.create_dataset(PATH)
        held = []
        u = ds.add_universe("u0")
        self.root.universes["u0"] = Item("universe", phenomena={"q0": new_phenomenon("in a universe")})
        q = u.add_phenomenon("q0", "in a universe")
        self.fill(held, q, self.root.universes["u0"].phenomena["q0"], 3)
        p = ds.add_phenomenon("p0", "first")
        self.root.phenomena["p0"] = new_phenomenon("first")
        self.fill(held, p, self.root.phenomena["p0"], 5)
        for seed in range(6):
            self.add_property(held[-1][0], held[-1][1], seed)
        del u, q, p
        held.clear()
        self.handles.append((ds, self.root, "create_dataset"))
        del ds
        simpy.faults(was)

    def fill(self, held, phenomenon, item, seed):
        object_id = phenomenon.object_id
        item.object_id.data = np.arange(seed, seed + 4, dtype=np.uint64)
        object_id.expand(4)[:] = item.object_id.data
        self.add_set(phenomenon, item, seed)
        self.add_set(phenomenon, item, seed + 1)
        held.append(self.add_set(phenomenon, item, 0))
        for i in range(2):
            self.add_property(held[-1][0], held[-1][1], i)

    def add_set(self, phenomenon, item, seed, donor=None):
        name = "s%d" % self.nr
        self.nr += 1
        m = seed % 5
        unit, count = UNITS[seed % 3], 1 + seed % 7
        time = ldm.TimeConfiguration(ldm.TimeDomainItemType.box if seed % 2 else ldm.TimeDomainItemType.point)
        clock = ldm.Clock(getattr(ldm.Unit, unit), count)
        time_item = Item("time", unit=unit, nr_units=count, value=Item("array", data=np.zeros((0, 2) if seed % 2 else (0, 1), np.uint64), grows=True))
        space = ldm.SpaceConfiguration(ldm.Mobility.mobile, ldm.SpaceDomainItemType.point)
        space_item = Item("space", value=Item("array", data=np.zeros((0, 2), np.float64), grows=True))
        if donor is not None:
            other, other_item = donor
            v = seed // 5 % 6
            if v == 0:
                o = phenomenon.add_property_set(name, other.time_domain, other.object_tracker)
                made = new_set(other_item.time, None, other_item.tracker)
            elif v == 1:
                o = phenomenon.add_property_set(name, other.time_domain)
                made = new_set(other_item.time)
            elif v == 2:
                o = phenomenon.add_property_set(name, time, clock, other.object_tracker)
                made = new_set(time_item, None, other_item.tracker)
            elif v == 3:
                o = phenomenon.add_property_set(name, other.time_domain, space, np.float64, 2)
                made = new_set(other_item.time, space_item)
            elif v == 4:
                o = phenomenon.add_property_set(name, other.time_domain, other.object_tracker, space, np.float64, 2)
                made = new_set(other_item.time, space_item, other_item.tracker)
            else:
                o = phenomenon.add_collection_property_set(name, other.time_domain)
                made = new_set(other_item.time)
                item.csets[name] = made
                return o, made, "add_collection_property_set(%s, ...)" % name
        elif m == 0:
            o = phenomenon.add_property_set(name, time, clock, space, np.float64, 2)
            made = new_set(time_item, space_item)
        elif m == 1:
            o = phenomenon.add_property_set(name, space, np.float64, 2) if False else phenomenon.add_property_set(name)
            made = new_set()
        elif m == 2:
            o = phenomenon.add_property_set(name, time, clock)
            made = new_set(time_item)
        elif m == 3:
            o = phenomenon.add_collection_property_set(name)
            made = new_set()
            item.csets[name] = made
            return o, made, "add_collection_property_set(%s)" % name
        else:
            o = phenomenon.add_property_set(name, ldm.SpaceConfiguration(ldm.Mobility.stationary, ldm.SpaceDomainItemType.point), np.float64, 2)
            made = new_set(None, space_item)
        item.sets[name] = made
        return o, made, "add_property_set(%s)" % name

    def add_property(self, pset, item, seed):
        name = "c%d" % self.nr
        self.nr += 1
        dtype = [np.int32, np.float64, np.uint64][seed % 3]
        m = seed % 8
        nr = 1 + seed % 3
        if m in (0, 1):
            o = pset.add_property(name, dtype)
            value = new_array(nr, dtype, seed)
        elif m == 2:
            o = pset.add_property(name, dtype, (2, 3), "described")
            value = new_array(nr, dtype, seed, (2, 3))
        elif m == 3:
            o = pset.add_property(name, dtype, (2,), ldm.ValueVariability.variable)
            value = new_array(nr, dtype, seed, (2,))
        elif m == 4:
            o = pset.add_property(name, dtype, (2,), ldm.ValueVariability.constant)
            value = new_array(nr, dtype, seed, (2,))
        elif m == 5:
            o = pset.add_property(name, dtype, 1)
            value = Item("different", parts={}, dtype=dtype, rank=1, variable=False)
        elif m == 6:
            o = pset.add_property(name, dtype, 2, ldm.ShapePerObject.different, ldm.ShapeVariability.constant)
            value = Item("different", parts={}, dtype=dtype, rank=2, variable=True)
        else:
            o = pset.add_property(name, dtype, 2, ldm.ShapePerObject.different if seed % 16 == 7 else ldm.ShapePerObject.same, ldm.ShapeVariability.variable)
            value = Item("opaque")
        made = Item("property", value=value, name=name)
        item.props[name] = made
        if value.kind == "array":
            array = o.value
            array.expand(nr)[:] = value.data
        elif value.kind == "different":
            self.grow_different(o.value, value, 1 + seed % 2, seed)
        return o, made, "add_property(%s, %d)" % (name, m)

    def grow_different(self, o, item, nr, seed):
        if item.variable:
            for _ in range(nr):
                i = len(item.parts)
                shape = (1 + (seed + i) % 3, 2)
                array = o.expand(i, shape, 2)
                data = values(seed + i, (2,) + shape, np.dtype(item.dtype))
                array[:] = data
                item.parts[i] = Item("array", data=data, grows=False)
            return
        first = len(item.parts)
        ids = np.arange(first, first + nr, dtype=np.uint64)
        shapes = np.array([[1 + (seed + i) % 4] * item.rank for i in range(nr)], dtype=np.uint64)
        o.expand(ids, shapes)
        for i in range(nr):
            data = values(seed + i, tuple(int(x) for x in shapes[i]), np.dtype(item.dtype))
            o[first + i][:] = data
            item.parts[first + i] = Item("array", data=data, grows=False)

    # ----
    def step(self, kind, a):
        if self.tainted:
            return
        self.fired = simpy.faults_fired()
        what = "%s %s" % (kind, a[:4])
        try:
            getattr(self, "do_" + kind)(a)
        except Violation:
            raise
        except Exception as e:
            e.__traceback__ = None
            if simpy.faults_fired() == self.fired:
                raise Violation("call-failed", "%s: %s" % (what, short(e)))
            self.doubt = True
            if kind in ("add", "grow", "write"):
                self.tainted = True
                return
        # somebody looks at one of the objects, whichever
        if self.handles and len(a):
            self.look(self.handles[(a[-1] // 7) % len(self.handles)])
        if not self.handles and not self.cycles:
            self.verify_closed()

    cycles = 0

    def pick(self, i):
        return self.handles[i % len(self.handles)] if self.handles else None

    def do_get(self, a):
        h = self.pick(a[0])
        if h is None:
            return
        r = routes(h[1])
        if r:
            name, get, item = r[a[1] % len(r)]
            self.handles.append((get(h[0]), item, h[2] + "." + name))
            simpy.probe("object obtained")

    def do_chain(self, a):
        h = self.pick(a[0])
        if h is None:
            if not self.reopen():
                return
            h = self.handles.pop()
        o, item, text = h
        del h
        taken = 0
        for x in a[1:]:
            r = [x for x in routes(item) if x[0] != "id"] or routes(item)
            if not r:
                break
            name, get, item = r[x % len(r)]
            o = get(o)
            text += "." + name
            taken += 1
        if taken:
            self.handles.append((o, item, text))
            simpy.probe("object obtained through others at once")

    def do_drop(self, a):
        if self.handles:
            self.handles.pop(a[0] % len(self.handles))

    def do_drop_all_but(self, a):
        if self.handles:
            # innermost objects matter most
            self.handles = [self.handles[a[0] % len(self.handles)]]

    def do_drop_all(self, a):
        while self.handles:
            self.handles.pop(a[0] % len(self.handles))

    def do_cycle(self, a):
        if not self.handles:
            return
        cycle = [self.handles.pop(a[0] % len(self.handles))[0]]
        if a[1] and self.handles:
            cycle.append(self.handles.pop(a[0] // 5 % len(self.handles))[0])
        cycle.append(cycle)
        self.cycles += 1
        simpy.probe("objects only reachable from a cycle")

    def do_gc(self, a):
        gc.collect()
        self.cycles = 0

    def do_churn(self, a):
        """Memory that was given back is used again by something else"""
        kept = [bytes([170]) * n for n in range(8, 2000, 24) for _ in range(3)]
        if a[0]:
            other = ldm.create_dataset("/simfs/other.lue")
            p = other.add_phenomenon("other")
            for i in range(3 * a[0]):
                p.add_property_set("other%d" % i).add_property("o", np.int8)
            kept.append(p)
            del other
        del kept

    def reopen(self):
        if self.cycles:
            gc.collect()
            self.cycles = 0
        self.writable = bool(self.nr % 5)
        self.doubt = False
        self.handles.append((ldm.open_dataset(PATH, "w" if self.writable else "r"), self.root, "open_dataset"))
        return True

    def do_open(self, a):
        if self.handles or self.cycles:
            return
        self.reopen()

    def able(self, accept, seed):
        """Handles of objects of a kind. If there are none, walk to one, keeping nothing of what is in between"""
        found = [h for h in self.handles if accept(h[1])]
        if found or not self.handles:
            return found
        for attempt in range(3):
            o, item, text = self.handles[(seed + attempt) % len(self.handles)]
            for step in range(8):
                r = [x for x in routes(item) if x[0] != "id"]
                if not r:
                    break
                name, get, item = r[(seed // 3 + attempt * 5 + step * 7) % len(r)]
                o = get(o)
                text += "." + name
                if accept(item):
                    self.handles.append((o, item, text))
                    return [self.handles[-1]]
        return []

    def do_add(self, a):
        if not self.writable or not self.handles:
            return
        focus = a[3] if len(a) > 3 else 0
        kinds = ("phenomenon",) if focus == 1 else ("dataset", "universe", "phenomenon", "set")
        able = self.able(lambda item: item.kind in kinds, a[2])
        if not able:
            return
        o, item, text = able[a[0] % len(able)]
        del able
        seed = a[1]
        if item.kind in ("dataset", "universe"):
            name = "p%d" % (self.nr + 1)
            self.nr += 1
            if item.kind == "dataset" and seed % 3 == 0:
                item.universes[name] = Item("universe", phenomena={})
                made = (o.universes.add(name) if seed % 2 else o.add_universe(name)), item.universes[name], "add_universe(%s)" % name
            else:
                item.phenomena[name] = new_phenomenon("d%d" % seed)
                made = o.add_phenomenon(name, "d%d" % seed), item.phenomena[name], "add_phenomenon(%s)" % name
        elif item.kind == "phenomenon":
            donors = [(h[0], h[1]) for h in self.handles if h[1].kind == "set" and h[1].time]
            if focus == 1 and not donors:
                donors = [(getattr(o, n), i) for n, i in item.sets.items() if i.time][:1]
            made = self.add_set(o, item, seed, donors[a[2] // 2 % len(donors)] if donors and a[2] % 2 else None)
            del donors
        else:
            made = self.add_property(o, item, seed)
        simpy.probe("object added")
        if a[2] % 4:
            self.handles.append((made[0], made[1], text + "." + made[2]))
            if focus % 2:
                # the object added is all that remains
                del o, made
                self.handles = self.handles[-1:]
                self.do_churn([1])
                self.look(self.handles[0])
                simpy.probe("object added remains alone")

    def do_grow(self, a):
        if not self.writable:
            return
        able = self.able(lambda item: item.kind == "different" or (item.kind == "array" and item.grows), a[2])
        if not able:
            return
        o, item, text = able[a[0] % len(able)]
        if item.kind == "different":
            self.grow_different(o, item, a[1], a[2])
        else:
            more = values(a[2], (a[1],) + item.data.shape[1:], item.data.dtype)
            result = o.expand(a[1])
            n = len(item.data)
            (result if a[2] % 2 else o)[n:] = more
            item.data = np.concatenate([item.data, more])
            if a[2] % 5 == 0:
                self.handles.append((result, item, text + ".expand"))
        simpy.probe("array grown")

    def do_write(self, a):
        if not self.writable or self.doubt:
            return
        able = self.able(lambda item: item.kind == "array", a[1])
        if not able:
            return
        o, item, text = able[a[0] % len(able)]
        data = values(a[1], item.data.shape, item.data.dtype)
        o[:] = data
        item.data = data
        simpy.probe("array written")

    # ----
    def look(self, handle, fresh=None):
        o, item, text = handle
        k = item.kind

        def same(got, want, what):
            if got != want:
                raise Violation("wrong-content", "%s: %s is %r instead of %r" % (text, what, got, want))
        try:
            if k == "dataset":
                same(o.pathname, PATH, "pathname")
                same(sorted(o.phenomena.names), sorted(item.phenomena), "names of phenomena")
                same(sorted(o.universes.names), sorted(item.universes), "names of universes")
            elif k in ("phenomena", "universes", "sets"):
                same(sorted(o.names), sorted(item.parts), "names")
                same(len(o), len(item.parts), "length")
            elif k == "properties":
                same(sorted(o.names), sorted(item.parts), "names")
            elif k == "universe":
                same(sorted(o.phenomena.names), sorted(item.phenomena), "names of phenomena")
            elif k == "phenomenon":
                same(o.description, item.description, "description")
                same(sorted(o.property_sets.names), sorted(item.sets), "names of property sets")
                same(sorted(o.collection_property_sets.names), sorted(item.csets), "names of collection property sets")
            elif k == "set":
                same(sorted(o.properties.names), sorted(item.props), "names of properties")
                same(o.has_time_domain, item.time is not None, "has_time_domain")
                same(o.has_space_domain, item.space is not None, "has_space_domain")
            elif k == "clock":
                same(str(o.unit), item.unit, "unit")
                same(o.nr_units, item.nr_units, "number of units")
            elif k == "array":
                same(tuple(o.shape), item.data.shape, "shape")
                same(o.dtype, item.data.dtype, "dtype")
                got = np.asarray(o[:])
                same(got.shape, item.data.shape, "shape read")
                if got.tobytes() != item.data.tobytes() and not self.doubt:
                    raise Violation("wrong-content", "%s: content is %r instead of %r" % (text, got.ravel()[:9], item.data.ravel()[:9]))
            elif k == "different":
                if not item.variable:
                    same(len(o), len(item.parts), "length")
                same(o.dtype, np.dtype(item.dtype), "dtype")
                for n, part in item.parts.items():
                    self.look((o[n], part, text + "[%d]" % n))
            elif k == "property":
                same(o.id.pathname.endswith("/" + item.name), True, "%r ending with the name" % o.id.pathname)
            elif k == "id":
                p = o.pathname
                same(p.startswith("/") and o.reference_count > 0, True, "pathname %r" % p)
            elif k != "space configuration":
                same(o.id.pathname.startswith("/"), True, "pathname")
            repr(o)
            simpy.probe("object looked at")
            simpy.log(("%s %s" % (k, type(o).__name__)).encode())
        except Violation:
            raise
        except Exception as e:
            if simpy.faults_fired() == self.fired:
                raise Violation("object-lost", "%s (%s): %s" % (text, k, short(e)))
            # HDF5 serves later reads of an array from the buffer that a failing read did not fill
            self.doubt = True

    def verify_closed(self):
        if simpy.open_descriptors(PATH):
            raise Violation("not-closed", "the dataset is still open after the last object was dropped")
        now = simpy.outstanding()
        if now != self.before:
            raise Violation("not-closed", "%d objects remain in HDF5 after the last one was dropped in Python" % (now - self.before))
        simpy.probe("closed")

    def finish(self):
        simpy.faults(False)
        if self.tainted:
            return
        self.fired = simpy.faults_fired()
        for i in range(len(self.handles)):
            self.look(self.handles[i])
        n = 0
        while self.handles:
            self.handles.pop((n * 7919 + self.nr) % len(self.handles))
            n += 1
        gc.collect()
        self.cycles = 0
        self.verify_closed()
        self.doubt = False
        todo = [(ldm.open_dataset(PATH, "r"), self.root, "open_dataset")]
        while todo:
            h = todo.pop()
            self.look(h)
            if h[1].kind != "id":
                todo += [(get(h[0]), item, h[2] + "." + name) for name, get, item in routes(h[1])]
        del h
        self.verify_closed()
