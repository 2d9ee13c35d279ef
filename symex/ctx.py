"""The two faces of a harness.

A harness is one function run(ctx).  SCtx executes it over the instrumented
code with symbolic inputs; CCtx executes the same harness over the real code of
/repo with the inputs of a witness.
"""
import hashlib
import importlib
import importlib.machinery
import importlib.util
import json
import os
import random
import sys
import types as pytypes

import cbor2

from . import core, crypto, keys, models, rt
from . import values as V
from .core import Control, PathAbort, z3
from .values import (LazySeq, Opaque, Proxy, Slot, SSet, SymBool, SymBytes,
                     SymDict, SymInt, SymStr, is_sym, mkbool, mkbytes, mkstr)

MODULES = ('asn1', 'attesters', 'backends', 'builders', 'constants',
           'converters', 'errors', 'parsers', 'registrars', 'types', 'utils',
           'validators', 'verifiers')
JSON_KINDS = ('ok', 'not_utf8', 'not_json', 'utf16', 'bom', 'hugeint', 'deep',
              'surrogate')
CERT_KINDS = crypto.CERT_KINDS
DER_KINDS = ('ok', 'bad', 'deep')
CBOR_KINDS = ('ok',) + tuple(models.CBOR_BAD)


class Violated(Exception):
    """A property check failed in concrete mode."""


class Skip(Exception):
    """An assumption does not hold in concrete mode."""


class Namespace:
    def __init__(self, get):
        self._get = get

    def __getattr__(self, n):
        if n.startswith('__') or n not in MODULES:
            raise AttributeError(n)
        m = self._get('webauthn_rp.' + n)
        setattr(self, n, m)
        return m


class BaseCtx:
    symbolic = False

    def __init__(self, cfg, M):
        self.cfg = cfg
        self.M = M
        self.tags = set()
        self.outcomes = []

    def reach(self, tag):
        self.tags.add(tag)

    def apart(self, prefix, cfg=None):
        """A context with its own inputs, for another call."""
        return Prefixed(self, prefix, cfg)

    def outcome(self, *x):
        self.outcomes.append(tuple(str(v) for v in x))

    def call(self, f, *a, **k):
        """('ok', value) or ('err', exception)."""
        try:
            return ('ok', rt.call(f, *a, **k) if self.symbolic
                    else f(*a, **k))
        except (Violated, Skip):
            raise
        except Exception as e:
            e.__traceback__ = None
            return ('err', e)

    # logic that works on both kinds of values
    And = staticmethod(V.And)
    Or = staticmethod(V.Or)
    Not = staticmethod(V.Not)

    def eq(self, a, b):
        """Equality including the type (b'' != '', True != 1)."""
        if a is b:
            return True
        ca, cb = a.__class__, b.__class__
        if ca is not cb:
            return False
        if ca in (list, tuple):
            if len(a) != len(b):
                return False
            return V.And(*[self.eq(x, y) for x, y in zip(a, b)])
        return V.sx_eq(a, b)

    def implies(self, a, b):
        return V.Or(V.Not(a), b)

    def ite(self, cond, a, b):
        """a if cond else b, for integers and booleans, without forking."""
        if cond is True or cond is False:
            return a if cond else b
        if a.__class__ is bool and b.__class__ is bool:
            return V.Or(V.And(cond, a), V.And(V.Not(cond), b))
        x, y = V._two(V._bv(a), V._bv(b))
        return V.mkint(z3.If(V.ebool(cond), x, y))

    def codes(self, text):
        """Code points (or byte values) as integers."""
        if text.__class__ is str:
            return [V.uint(x) for x in V.sitems(text)]
        return list(text)

    def ge_le(self, x, lo, hi):
        return V.And(x >= lo, x <= hi)

    def one_of(self, x, values):
        return V.Or(*[x == v for v in values])


# ------------------------------------------------------------------ symbolic
class SCtx(BaseCtx):
    symbolic = True

    def __init__(self, cfg, M):
        super().__init__(cfg, M)
        self.docs = {}

    @property
    def eng(self):
        return core.ENG

    # -- leaves
    def _leaf(self, name, kind, make):
        lv = self.eng.leaves
        if name not in lv:
            lv[name] = (kind,) + make()
        elif lv[name][0] != kind:
            raise RuntimeError('leaf %s used as %s and %s' % (
                name, lv[name][0], kind))
        return lv[name]

    def bytes(self, name, n):
        def make():
            ts = [z3.BitVec('%s[%d]' % (name, i), 8) for i in range(n)]
            return ts, mkbytes(ts)
        r = self._leaf(name, 'bytes', make)
        if len(r[1]) != n:
            raise RuntimeError('leaf %s used with two lengths' % name)
        return r[2]

    def int(self, name, lo, hi):
        def make():
            w = max(lo.bit_length(), hi.bit_length()) + 1
            t = z3.BitVec(name, w)
            x = SymInt(t)
            self.eng.assume(V.ebool(V.And(x >= lo, x <= hi)))
            return t, x
        return self._leaf(name, 'int', make)[2]

    def bool(self, name):
        def make():
            t = z3.Bool(name)
            return t, SymBool(t)
        return self._leaf(name, 'bool', make)[2]

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]

        def make():
            t = z3.BitVec(name, max(len(options).bit_length(), 1))
            self.eng.assume(z3.ULT(t, len(options)))
            return t, None
        t = self._leaf(name, 'choice', make)[1]
        for i in range(len(options) - 1):
            if self.eng.branch(t == i):
                return options[i]
        return options[-1]

    def text(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        def make():
            ts = [z3.BitVec('%s[%d]' % (name, i), V.CP) for i in range(n)]
            for t in ts:
                self.eng.assume(V.ebool(V.in_range(t, lo, hi)))
                if not surrogates and lo <= 0xDFFF and hi >= 0xD800:
                    self.eng.assume(V.ebool(V.Not(
                        V.in_range(t, 0xD800, 0xDFFF))))
            return ts, mkstr(ts)
        r = self._leaf(name, 'text', make)
        if len(r[1]) != n:
            raise RuntimeError('leaf %s used with two lengths' % name)
        return r[2]

    # -- structure
    def dict(self, slots):
        """[(key, present, make)]: present is True or a leaf name."""
        out = []
        for key, present, make in slots:
            p = True if present is True else self.bool(present).e
            out.append(Slot(key, make, p))
        return SymDict(out)

    def list(self, makers):
        return LazySeq(makers)

    def _doc(self, name, cls, doc):
        if name in self.docs:
            return self.docs[name]
        o = Opaque(cls, doc, (name,))
        self.docs[name] = o
        return o

    def _kinds(self, name, kinds):
        return lambda: self.choice(name + '.kind', kinds)

    def json(self, name, structure, kinds=('ok',), size=1024):
        return self._doc(name, bytes, models.JSONText(
            _once(self._kinds(name, kinds)),
            _once(lambda: structure(self)), size))

    def cbor(self, name, structure, kinds=('ok',)):
        return self._doc(name, bytes, models.CBORBytes(
            _once(self._kinds(name, kinds)),
            _once(lambda: structure(self))))

    def cert(self, name, pk, exts=lambda c: [], kinds=('ok',)):
        return self._doc(name, bytes, crypto.CertDoc(
            _once(self._kinds(name, kinds)), _once(lambda: pk(self)),
            _once(lambda: exts(self))))

    def key_description(self, name, fields, se, tee, kinds=('ok',)):
        return self._doc(name, bytes, crypto.DERDoc(
            _once(self._kinds(name, kinds)), _once(lambda: fields(self)),
            _once(lambda: se(self)), _once(lambda: tee(self))))

    def cbor_encode(self, x):
        return models.cbor_encode(x)

    # -- crypto
    def sha256(self, data):
        return models.hash_digest('sha256', data)

    def point_valid(self, kind, x, y):
        frm = models.int_from_bytes
        return crypto.point_valid(kind, frm(x, 'big'), frm(y, 'big'))

    def sig_valid(self, key, hash_name, data, sig):
        """key: ('secp256r1', x bytes, y bytes) | ('ed25519', x bytes)."""
        frm = models.int_from_bytes
        if key[0] in keys.CURVES:
            key = (key[0], frm(key[1], 'big'), frm(key[2], 'big'))
        return crypto.sig_valid(key, hash_name, data, sig)

    def cert_is(self, cert, doc):
        return isinstance(cert, crypto.StubCert) and \
            cert._opaque.ident == doc.ident

    def asn1(self, x, kind):
        """Value of a decoded ASN.1 object, None when absent."""
        return x._need() if x.hasValue() else None

    # -- logic
    def assume(self, c):
        self.eng.assume(V.ebool(c))

    def check(self, c, msg):
        self.eng.check(V.ebool(c), msg)

    def url64(self, data, pad=True):
        """base64url text of data."""
        t = models.b2a_base64(data, newline=False)
        t = t.translate(bytes.maketrans(b'+/', b'-_')).decode('ascii')
        return t if pad else t.rstrip('=')

    def std64(self, data):
        return models.b2a_base64(data, newline=False).decode('ascii')

    def cast(self, x):
        return x


class Prefixed:
    """A context whose inputs are named apart from those of another one, for
    an earlier call in the same history.  Its obligations are not checked."""

    def __init__(self, c, prefix, cfg=None):
        self._c = c
        self._p = prefix
        self.cfg = cfg if cfg is not None else {
            k: v for k, v in c.cfg.items() if k != 'before'}
        self.tags = set()
        self.outcomes = []

    def __getattr__(self, n):
        return getattr(self._c, n)

    def reach(self, tag):
        pass

    def outcome(self, *x):
        self._c.outcome(self._p, *x)

    def check(self, cond, msg):
        pass

    def bytes(self, name, n):
        return self._c.bytes(self._p + name, n)

    def int(self, name, lo, hi):
        return self._c.int(self._p + name, lo, hi)

    def bool(self, name):
        return self._c.bool(self._p + name)

    def choice(self, name, options):
        return self._c.choice(self._p + name, options)

    def text(self, name, *a, **k):
        return self._c.text(self._p + name, *a, **k)

    def dict(self, slots):
        return self._c.dict([(k, p if p is True else self._p + p, m)
                             for k, p, m in slots])

    def _inner(self, f):
        return lambda c: f(self)

    def json(self, name, structure, kinds=('ok',), size=1024):
        return self._c.json(self._p + name, self._inner(structure), kinds,
                            size)

    def cbor(self, name, structure, kinds=('ok',)):
        return self._c.cbor(self._p + name, self._inner(structure), kinds)

    def cert(self, name, pk, exts=lambda c: [], kinds=('ok',)):
        return self._c.cert(self._p + name, self._inner(pk),
                            self._inner(exts), kinds)

    def key_description(self, name, fields, se, tee, kinds=('ok',)):
        return self._c.key_description(
            self._p + name, self._inner(fields), self._inner(se),
            self._inner(tee), kinds)


def _once(f):
    box = []

    def g():
        if not box:
            box.append(f())
        return box[0]
    g.box = box
    return g


# ------------------------------------------------------------------ concrete
class CCtx(BaseCtx):
    def __init__(self, cfg, M, witness, seed=1):
        super().__init__(cfg, M)
        self.w = witness
        self.seed = seed
        self.docs = {}
        self.used = {}

    def _rand(self, name):
        return random.Random('%s/%s' % (self.seed, name))

    def _leaf(self, name, default, conv):
        if name not in self.used:
            if name in self.w:
                self.used[name] = conv(self.w[name])
            else:
                self.used[name] = default(self._rand(name))
        return self.used[name]

    def bytes(self, name, n):
        def conv(v):
            b = bytes.fromhex(v)
            if len(b) != n:
                raise Skip('length of ' + name)
            return b
        return self._leaf(name, lambda r: bytes(
            r.randrange(256) for _ in range(n)), conv)

    def int(self, name, lo, hi):
        return self._leaf(name, lambda r: r.randint(lo, hi), int)

    def bool(self, name):
        return self._leaf(name, lambda r: r.random() < .5, bool)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self._leaf(name, lambda r: r.randrange(len(options)), int)
        return options[i]

    def text(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        def default(r):
            return ''.join(chr(r.randint(max(lo, 33), min(hi, 126)))
                           if lo <= 126 else chr(lo) for _ in range(n))
        return self._leaf(name, default, lambda v: ''.join(map(chr, v)))

    def dict(self, slots):
        return {k: make() if callable(make) else make
                for k, present, make in slots
                if present is True or self.bool(present)}

    def list(self, makers):
        return [m() for m in makers]

    def _doc(self, name, make):
        if name not in self.docs:
            self.docs[name] = make()
        return self.docs[name]

    def json(self, name, structure, kinds=('ok',), size=1024):
        def make():
            k, total = self.choice(name + '.kind', kinds), size
            if k == 'not_json':
                return b'{"type": '.ljust(total)
            if k == 'hugeint':
                return b'{"n": 1' + b'0' * 5000 + b'}'
            if k == 'deep':
                return b'[' * 100000
            t = json.dumps(structure(self))
            # white space of its own: documents differ even when their
            # members agree, as the digests of the symbolic ones do
            h = hashlib.sha256(name.encode()).digest()
            pad = ' ' * 7 + ''.join(' \t\n\r'[x & 3] for x in h[:12])
            if k == 'surrogate':
                t = t[:-1] + (', ' if len(t) > 2 else '') + '"_": "\ud800"}'
                total -= 2
            n = {'bom': total - 3, 'not_utf8': total - 1,
                 'utf16': total // 2}.get(k, total) - len(t)
            if t[0] == '{':
                t = '{' + pad.ljust(n) + t[1:]
            else:
                t = (' ' + pad).ljust(n) + t
            if k == 'utf16':
                return t.encode('utf-16-le')
            return {'bom': b'\xef\xbb\xbf', 'not_utf8': b'\xff'}.get(
                k, b'') + t.encode('utf-8', 'surrogatepass')
        return self._doc(name, make)

    def cbor(self, name, structure, kinds=('ok',)):
        def make():
            k = self.choice(name + '.kind', kinds)
            if k != 'ok':
                return models.CBOR_BAD[k][0]
            return cbor2.dumps(structure(self))
        return self._doc(name, make)

    def cert(self, name, pk, exts=lambda c: [], kinds=('ok',)):
        def make():
            k = self.choice(name + '.kind', kinds)
            if k == 'bad':
                return b'\x30\x03\x02\x01\x05'
            if k in keys.ODD_CERTS:
                return keys.ODD_CERTS[k]
            d = pk(self)
            try:
                return keys.certificate(
                    d[0], d[1:], list(exts(self)) + keys.ODD_EXTS[k],
                    serial=1 + int.from_bytes(hashlib.sha256(
                        name.encode()).digest()[:8], 'big'))
            except ValueError:
                raise Skip('certificate over an invalid point')
        return self._doc(name, make)

    def key_description(self, name, fields, se, tee, kinds=('ok',)):
        def make():
            d = keys.der_key_description(fields(self), se(self), tee(self))
            k = self.choice(name + '.kind', kinds)
            return d if k == 'ok' else keys.der_deep(20000) if k == 'deep' \
                else d[:-1]
        return self._doc(name, make)

    def cbor_encode(self, x):
        return cbor2.dumps(x)

    def sha256(self, data):
        return hashlib.sha256(data).digest()

    def point_valid(self, kind, x, y):
        return keys.on_curve(kind, int.from_bytes(x, 'big'),
                             int.from_bytes(y, 'big'))

    def sig_valid(self, key, hash_name, data, sig):
        from cryptography.exceptions import InvalidSignature
        from cryptography.hazmat.primitives.asymmetric import ec
        try:
            pk = keys.public_key(key[0], key[1:])
        except ValueError:
            return False
        try:
            if key[0] in keys.CURVES:
                pk.verify(sig, data, ec.ECDSA(keys.HASHES[hash_name]()))
            else:
                pk.verify(sig, data)
            return True
        except InvalidSignature:
            return False

    def cert_is(self, cert, doc):
        from cryptography import x509
        from cryptography.hazmat.primitives.serialization import Encoding
        return isinstance(cert, x509.Certificate) and \
            cert.public_bytes(Encoding.DER) == doc

    def asn1(self, x, kind):
        if not x.hasValue():
            return None
        if kind == 'octets':
            return x.asOctets()
        if kind == 'null':
            return None if x != '' else b''
        if kind == 'set':
            return [int(v) for v in x]
        return int(x)

    lenient = False     # while only the bytes of a document are wanted

    def assume(self, c):
        if not c and not self.lenient:
            raise Skip('assumption')

    def check(self, c, msg):
        if not c:
            raise Violated(msg)

    def url64(self, data, pad=True):
        import base64
        t = base64.b64encode(data, b'-_').decode('ascii')
        return t if pad else t.rstrip('=')

    def std64(self, data):
        import base64
        return base64.b64encode(data).decode('ascii')

    def cast(self, x):
        return x


_CODE = {}


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles every source file once."""

    def get_code(self, name):
        if self.path not in _CODE:
            with open(self.path, 'rb') as f:
                _CODE[self.path] = compile(f.read(), self.path, 'exec',
                                           dont_inherit=True)
        return _CODE[self.path]


class _Finder:
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] != 'webauthn_rp':
            return None
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            p = os.path.join(p, '__init__')
        if not os.path.exists(p + '.py'):
            return None
        return importlib.util.spec_from_file_location(
            name, p + '.py', loader=_Loader(name, p + '.py'))


def real_modules(root=os.environ.get('SX_REPO', '/repo')):
    """The uninstrumented package, loaded anew from the working tree."""
    sys.dont_write_bytecode = True
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder(root))
    for k in [k for k in sys.modules if k.split('.')[0] == 'webauthn_rp']:
        del sys.modules[k]
    return Namespace(importlib.import_module)


def run_concrete(run, cfg, witness, seed=1, lenient=False):
    """('ok'|'violated'|'skip'|'error', detail, ctx)"""
    saved, core.ENG = core.ENG, None
    c = CCtx(cfg, real_modules(), witness, seed)
    c.lenient = lenient
    try:
        try:
            run(c)
            return ('ok', '', c)
        except Violated as e:
            return ('violated', str(e), c)
        except Skip as e:
            return ('skip', str(e), c)
        except Exception as e:
            import traceback
            return ('error', traceback.format_exc(limit=-6), c)
    finally:
        core.ENG = saved


# ------------------------------------------------------------- witnesses
def extract(eng, model):
    w = {}
    for name, leaf in eng.leaves.items():
        kind, t = leaf[0], leaf[1]
        if kind == 'bytes':
            w[name] = bytes(_val(model, x) for x in t).hex()
        elif kind == 'text':
            w[name] = [_val(model, x) for x in t]
        elif kind == 'int':
            v = _val(model, t)
            n = t.size()
            w[name] = v - (1 << n) if v >> (n - 1) else v
        elif kind == 'choice':
            w[name] = _val(model, t)
        else:
            w[name] = z3.is_true(model.eval(t, model_completion=True))
    return w


def _val(model, t):
    if type(t) is int:
        return t
    return model.eval(t, model_completion=True).as_long()


def _terms(x, out, depth=8):
    """Solver terms inside a made value."""
    if depth < 0:
        return
    t = type(x)
    if t in (SymBytes, SymStr) or issubclass(t, SymStr):
        if x._items is None:
            return
        out.extend(i for i in x.items if type(i) is not int)
    elif t in (SymBool, SymInt):
        out.append(x.e)
    elif t is LazySeq:
        for m, v in zip(x.makers, x.vals):
            if m is None:
                _terms(v, out, depth - 1)
    elif t is SymDict:
        for s in x.slots:
            if s.present is not True and s.present is not False:
                out.append(s.present)
            _terms(s.key, out, depth - 1)
            if s.made:
                _terms(s.value, out, depth - 1)
            elif not callable(s.make):
                _terms(s.make, out, depth - 1)
    elif t is Opaque:
        d = x.doc
        for a in ('_structure', 'pk', 'exts', 'fields', 'se', 'tee', 'data'):
            f = getattr(d, a, None)
            box = getattr(f, 'box', None)
            if box:
                _terms(box[0], out, depth - 1)
            elif a == 'data' and f is not None:
                _terms(f, out, depth - 1)
    elif t in (list, tuple, set, frozenset) or issubclass(t, tuple):
        for v in x:
            _terms(v, out, depth - 1)
    elif t is SSet:
        for v, g in x.els:
            _terms(v, out, depth - 1)
            if g is not True:
                out.append(g)
    elif t is dict:
        for k, v in x.items():
            _terms(k, out, depth - 1)
            _terms(v, out, depth - 1)


def _doc_bytes(run, cfg, witness, opaque, seed):
    r, detail, c = run_concrete(run, cfg, witness, seed, True)
    base = opaque.ident[0]
    d = c.docs.get(base)
    rest = opaque.ident[1:]
    while d is not None and rest:
        if rest[0] == 'cut':
            d, rest = d[:rest[1]], rest[2:]
        elif rest[0] == 'nobom':
            d, rest = d[3:], rest[1:]
        else:
            return None
    return d


def make_witness(eng, run, cfg, model, extra=None, seed=1):
    """A concrete input following this path (and extra), or None."""
    sigs = [s for s in eng.sigs]
    if not eng.hashes and not eng.points and not sigs:
        return extract(eng, model)
    s = z3.SolverFor('QF_BV')
    s.set('timeout', 20000)
    s.add(eng.solver.assertions())
    if extra is not None:
        s.add(extra)

    state = {'m': model}

    def attempt(*lits):
        s.push()
        for l in lits:
            if l is False:
                s.pop()
                return False
            if l is not True:
                s.add(l)
        if s.check() == z3.sat:
            state['m'] = s.model()
            return True
        s.pop()
        return False

    def iseq(x, v):
        return V.ebool(V.sx_eq(x, v))

    def ival(x):
        m = state['m']
        if not is_sym(x):
            return x
        v = _val(m, x.e)
        n = x.e.size()
        return v - (1 << n) if v >> (n - 1) else v

    def bval(x):
        return bytes(_val(state['m'], i) for i in V.bitems(x))

    used = []

    def bind(kind, values, pin):
        """Make a key equal to one with a known private part."""
        cur = tuple(values())
        order = keys.pool(kind)
        i = keys.find(kind, cur)
        order = ([i] if i is not None else []) + \
            [k for k in order if (kind, k) not in used] + \
            [k for k in order if (kind, k) in used]
        for k in order:
            if attempt(*pin(keys.raw_public(kind, k))):
                used.append((kind, k))
                return k
        return None

    if s.check() != z3.sat:
        return None
    state['m'] = s.model()
    for (name, x, y, ok) in eng.points:
        if not z3.is_true(state['m'].eval(ok, model_completion=True)):
            continue
        if name not in keys.COORD:
            return None
        n = keys.COORD[name]
        if bind(name, lambda: (ival(x).to_bytes(n, 'big'),
                               ival(y).to_bytes(n, 'big')),
                lambda r: (iseq(x, int.from_bytes(r[0], 'big')),
                           iseq(y, int.from_bytes(r[1], 'big')), ok)) is None:
            return None
    # Edwards keys under which a signature is valid
    for (k, h, d, sg, ok) in sigs:
        if z3.is_true(state['m'].eval(ok, model_completion=True)) and \
                k[0] in ('ed25519', 'ed448'):
            if bind(k[0], lambda: (bval(k[1]),),
                    lambda r: (iseq(k[1], r[0]), ok)) is None:
                return None
    docs = {}
    unknown = {x.get_id() for e in eng.hashes for x in e[3]
               if type(x) is not int}      # digests not settled yet
    # signatures
    signed = set()

    def sign(early=False):
        """Make signatures taken as valid real ones (early: those over
        documents that are known by now)."""
        for n, (k, h, d, sg, ok) in enumerate(sigs):
            if n in signed or not z3.is_true(
                    state['m'].eval(ok, model_completion=True)):
                continue
            if early and (d.ident not in docs if isinstance(d, Opaque) else
                          any(type(x) is not int and x.get_id() in unknown
                              for x in V.bitems(d))):
                continue
            if not sign_one(k, h, d, sg, ok):
                return False
            signed.add(n)
        return True

    def sign_one(k, h, d, sg, ok):
        kind = k[0]
        if kind in keys.CURVES:
            n = keys.COORD[kind]
            i = keys.find(kind, (ival(k[1]).to_bytes(n, 'big'),
                                 ival(k[2]).to_bytes(n, 'big')))
        else:
            i = keys.find(kind, (bval(k[1]),))
        if i is None:
            return False
        if isinstance(d, Opaque):
            if d.ident not in docs:
                docs[d.ident] = _doc_bytes(
                    run, cfg, extract(eng, state['m']), d, seed)
            data = docs[d.ident]
            if data is None:
                return False
            pins = []
        else:
            data = bval(d)
            pins = [V.ebool(mkbool(V.item_eq(a, b)))
                    for a, b in zip(V.bitems(d), data)]
        want = V.bitems(sg)
        cur = bval(sg)
        if CCtx.sig_valid(None, (kind,) + keys.raw_public(kind, i), h, data,
                          cur):
            return True
        real = keys.sign(kind, i, h, data, len(want))
        if real is None or len(real) != len(want):
            return False
        if not attempt(ok, *(pins + [V.ebool(mkbool(V.item_eq(a, b)))
                                     for a, b in zip(want, real)])):
            return False
        return True

    # digests, in creation order
    for (alg, key, its, dig, data) in eng.hashes:
        if its is not None:
            if all(type(i) is int for i in its) and \
                    all(type(i) is int for i in dig):
                continue
            v = bytes(_val(state['m'], i) for i in its)
            pins = [V.ebool(mkbool(V.item_eq(i, b)))
                    for i, b in zip(its, v)]
        else:
            ts = []
            _terms(data, ts)
            pins = []
            for t in ts:
                pins.append(t == state['m'].eval(t, model_completion=True))
            if not attempt(*pins):
                return None
            pins = []
            v = _doc_bytes(run, cfg, extract(eng, state['m']), data, seed)
            if v is None:
                # made only after an earlier signature is accepted
                if not sign(True):
                    return None
                v = _doc_bytes(run, cfg, extract(eng, state['m']), data,
                               seed)
            if v is None:
                return None
            docs[data.ident] = v
        real = hashlib.new(alg, v).digest()
        pins += [V.ebool(mkbool(V.item_eq(i, b))) for i, b in zip(dig, real)]
        if not attempt(*pins):
            return None
        unknown.difference_update(x.get_id() for x in dig
                                  if type(x) is not int)
    # signatures
    if not sign():
        return None
    # Edwards signatures taken as invalid must really be (those under keys of
    # low order are valid for anything)
    for (k, h, d, sg, ok) in sigs:
        if k[0] in keys.CURVES or isinstance(d, Opaque) or z3.is_true(
                state['m'].eval(ok, model_completion=True)):
            continue
        cur = bval(sg)
        if CCtx.sig_valid(None, (k[0], bval(k[1])), h, bval(d), cur):
            if not attempt(z3.Not(ok), V.ebool(V.Not(mkbool(V.item_eq(
                    V.bitems(sg)[0], cur[0]))))):
                return None
    # points taken as invalid must really be
    for (name, x, y, ok) in eng.points:
        if not z3.is_true(state['m'].eval(ok, model_completion=True)):
            if keys.on_curve(name, ival(x), ival(y)):
                if not attempt(z3.Not(ok), V.ebool(V.Not(
                        V.sx_eq(x, ival(x))))):
                    return None
    return extract(eng, state['m'])
