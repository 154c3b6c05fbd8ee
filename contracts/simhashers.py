"""The token hashers of SimHash (P12): the hash of a token is a function of the keys and of what the token writes, nothing else.

Assumed: siphasher's SipHasher::new_with_keys/finish/finish128 and sha1's digest are functions of their inputs; `Hash::hash` of a token
writes a fixed sequence of bytes into whatever hasher it is given."""
import re
from common import *
import models
from models import HasherV, HS

UU = usort('U_U')
SIP = z3.Function('SIP_INIT', I, I, HS)
SIP128 = z3.Function('SIP128_INIT', I, I, HS)
LO, HI = z3.Function('SIP128_LO', HS, I), z3.Function('SIP128_HI', HS, I)
BLEN, BAT = z3.Function('WRITES_LEN', UU, I), z3.Function('WRITES_AT', UU, I, I)
BYTE = sh_int(0, 255)


def token_bytes(cx, u):
    if 'token bytes' not in cx.axkeys:
        cx.axkeys.add('token bytes')
        x, i = z3.Const('x', UU), z3.Int('i')
        cx.axioms.append((z3.ForAll([x], And(BLEN(x) >= 0, BLEN(x) < 2**62), patterns=[BLEN(x)]), frozenset(['WRITES_LEN'])))
        cx.axioms.append((z3.ForAll([x, i], And(BAT(x, i) >= 0, BAT(x, i) < 256), patterns=[BAT(x, i)]), frozenset(['WRITES_AT'])))
    return Seq(BLEN(u), lambda i: BAT(u, i))


def sha(cx, st, q):
    """The digest of a sequence of bytes: 20 bytes that depend on that sequence only."""
    k = cx.key(st, q)
    f = z3.Function('SHA1', k.sort(), I, I)
    if 'sha' not in cx.axkeys:
        cx.axkeys.add('sha')
        x, i = z3.Const('x', k.sort()), z3.Int('i')
        cx.axioms.append((z3.ForAll([x, i], And(f(x, i) >= 0, f(x, i) < 256), patterns=[f(x, i)]), frozenset(['SHA1'])))
    return Seq(iv(20), lambda i: f(k, i))


def concat(a, b):
    return Seq(simp(a.n + b.n), lambda i: ite(i < a.n, a.at(i), b.at(i - a.n)))


def sip128(cx, h):
    if 'sip128' not in cx.axkeys:
        cx.axkeys.add('sip128')
        x = z3.Const('x', HS)
        for f in (LO, HI):
            cx.axioms.append((z3.ForAll([x], And(f(x) >= 0, f(x) < 2**64), patterns=[f(x)]), frozenset([f.name()])))
    return Tup([LO(h), HI(h)])


def ext(cx, fr, st, c, own, m, args, atys):
    one = models.one
    if m == 'new_with_keys' and own in ('SipHasher', 'SipHasher24'):
        return one(st, HasherV((SIP128 if 'sip128' in str(c.self_ty or c) else SIP)(args[0], args[1])))
    if m == 'finish128':
        h = cx.deref(st, args[0])
        return one(st, sip128(cx, h.h))
    if own == 'Hash128' and m in ('as_u128', 'as_u64'):
        t = cx.deref(st, args[0])
        return one(st, t.f[0] + t.f[1] * 2**64 if m == 'as_u128' else t)
    if m == 'hash' and len(args) == 2:
        p, h = models.target(cx, st, args[1])
        if isinstance(h, Tup) and len(h.f) == 1 and isinstance(h.f[0], Seq):          # Sha1Hasher, by the contract of its `write`
            u = cx.deref(st, args[0])
            cx.write(st, p.root, p.path, Tup([concat(h.f[0], token_bytes(cx, u))]))
            return one(st, UNIT)
    if 'Sha1Core' in str(atys[0] if atys else '') or 'Sha1Core' in str(c.self_ty or '') or own == 'Sha1':
        if m in ('new', 'default'):
            return one(st, Seq(iv(0), lambda i: iv(0)))
        if m in ('write', 'update', 'write_all'):
            p, q = models.target(cx, st, args[0])
            d = cx.deref(st, args[1])
            cx.write(st, p.root, p.path, concat(q, d))
            return one(st, UNIT if m == 'update' else Opaque('written'))
        if m == 'chain_update':
            return one(st, concat(args[0], cx.deref(st, args[1])))
        if m == 'finalize':
            return one(st, sha(cx, st, cx.deref(st, args[0])))
        if m == 'digest':
            return one(st, sha(cx, st, cx.deref(st, args[0])))
    if m == 'try_into' and isinstance(cx.deref(st, args[0]), Seq):
        q = cx.deref(st, args[0])
        k = re.search(r'\[u8; (\d+)', str(c))
        if not k:
            raise Unsupported('try_into')
        return one(st, Enum(If(q.n == int(k.group(1)), iv(0), iv(1)), {0: [q], 1: [Opaque('err')]}))
    if m in ('from_be_bytes', 'from_le_bytes'):
        q = cx.deref(st, args[0])
        w = 8 if 'u64' in str(c) else 16
        t = iv(0)
        for i in range(w):
            t = t + q.at(iv(i)) * 256**(w - 1 - i if m == 'from_be_bytes' else i)
        return one(st, t)
    return None


def setup():
    cx = new_ctx({'U': sh_u('U_U'), 'CoreWrapper': sh_seq(BYTE), 'SipHasher': Sh('hasher')}, {})
    cx.extra_models.append(ext)
    return cx


def sha_value(cx, s, q):
    d = sha(cx, s, q)
    t = iv(0)
    for i in range(8):
        t = t + d.at(iv(i)) * 256**(7 - i)
    return t


def j_sip(key, bits):
    def run(cx):
        r = Run(cx, '<%s as SimHasher>::hash' % key, ['self', 'item'])
        sh = cx.shape(mir.parse_type(key))
        f = lambda n: cx.deref(r.st, r.args[0]).f[field_index(sh, n)]
        u = cx.deref(r.st, r.args[1])
        for s, v in r.body():
            h = models.hash_value(cx, s, (SIP if bits == 64 else SIP128)(f('key1'), f('key2')), u)
            want = models.h_fin(cx, h) if bits == 64 else sip128(cx, h).f[0] + sip128(cx, h).f[1] * 2**64
            cx.oblige(s, 'the hash is the %d-bit SipHash of the token under the two keys' % bits, v == want, 'post')
    return run


def j_sip_new(key):
    def run(cx):
        r = Run(cx, key + '::new', ['key1', 'key2'])
        sh = cx.shape(mir.parse_type(key))
        for s, v in r.body():
            for n, a in zip(('key1', 'key2'), r.args):
                cx.oblige(s, 'the keys are the given ones', v.f[field_index(sh, n)] == a, 'post')
    return run


def j_sha(cx):
    r = Run(cx, '<ShaHasher64 as SimHasher>::hash', ['self', 'item'])
    u = cx.deref(r.st, r.args[1])
    for s, v in r.body():
        cx.oblige(s, 'the hash is the first eight bytes of the SHA-1 digest of what the token writes',
                  v == sha_value(cx, s, token_bytes(cx, u)), 'post')


def j_sha_write(cx):
    r = Run(cx, '<Sha1Hasher as Hasher>::write', ['self', 'bytes'])
    q, d = r.st.roots['self'].f[0], cx.deref(r.st, r.args[1])
    r.st.fact(And(q.n < 2**62, d.n < 2**62))
    i = gensym('i', I)
    for s, v in r.body():
        q1 = s.roots['self'].f[0]
        w = concat(q, d)
        cx.oblige(s, 'every byte is kept', q1.n == w.n, 'post')
        cx.oblige(s, 'bytes are appended in order', q1.at(i) == w.at(i), 'post', [i >= 0, i < w.n])


def j_sha_finish(cx):
    r = Run(cx, '<Sha1Hasher as Hasher>::finish', ['self'])
    q = cx.deref(r.st, r.args[0]).f[0]
    for s, v in r.body():
        cx.oblige(s, 'first eight bytes of the digest of all bytes written', v == sha_value(cx, s, q), 'post')


def j_sha_new(key):
    def run(cx):
        r = Run(cx, key, [])
        for s, v in r.body():
            cx.oblige(s, 'nothing written yet', v.f[0].n == 0, 'post')
    return run


PX = P('P12')
JOBS = [JOB('<SimSipHasher64 as SimHasher>::hash', j_sip('SimSipHasher64', 64), PX, setup),
        JOB('<SimSipHasher128 as SimHasher>::hash', j_sip('SimSipHasher128', 128), PX, setup),
        JOB('SimSipHasher64::new', j_sip_new('SimSipHasher64'), PX, setup),
        JOB('SimSipHasher128::new', j_sip_new('SimSipHasher128'), PX, setup),
        JOB('<ShaHasher64 as SimHasher>::hash', j_sha, PX, setup),
        JOB('<Sha1Hasher as Hasher>::write', j_sha_write, PX, setup),
        JOB('<Sha1Hasher as Hasher>::finish', j_sha_finish, PX, setup),
        JOB('Sha1Hasher::new', j_sha_new('Sha1Hasher::new'), PX, setup),
        JOB('<Sha1Hasher as Default>::default', j_sha_new('<Sha1Hasher as Default>::default'), PX, setup)]
