"""Reference model of DEP verification, written from the rules (Detailspezifikation
and the property texts), and helpers to run the real verification.

The model works on what the receipts say (Spec), never on the code under test.
"""
from librksv import verify, verify_receipt, verification_state, depparser, receipt, utils
from . import common as c

V = verify
VS = verification_state
ISSUES = dict(
    sig=(receipt.ReceiptException,),
    start_unsigned=(V.SignatureSystemFailedOnInitialReceiptException,),
    start_turnover=(V.NonzeroTurnoverOnInitialReceiptException,),
    start_type=(V.NonstandardTypeOnInitialReceiptException,),
    start_chain=(V.InvalidChainingOnInitialReceiptException,),
    cluster_chain=(V.InvalidChainingOnClusterInitialReceiptException,),
    cluster_open=(V.ClusterInOpenSystemException,),
    restore=(V.NoRestoreReceiptAfterSignatureSystemFailureException,),
    dup=(VS.DuplicateReceiptIdException,),
    reg=(V.ChangingRegisterIdException,),
    systype=(V.ChangingSystemTypeException,),
    date=(V.DecreasingDateException,),
    chain=(V.ChainingException,),
    counter=(V.InvalidTurnoverCounterException,),
)


def build(specs, prev=None, counter=0, key=c.KEY):
    """JWS texts for the specs; resolves spec.chain and spec.ctr"""
    out = []
    for s in specs:
        if s.chain is None:
            s.chain = c.chain_value(prev if prev is not None else s.reg)
        jws, counter = c.make_dep([s], prev, counter, key)
        if s.ctr is None:
            s.ctr = c.TRA if s.kind == 'T' else c.STO if s.kind == 'S' else \
                c.enc_counter(key, s.reg, s.rid, counter, s.size)
        prev = jws[0]
        out.append(prev)
    return out, counter


class Model(object):
    """what a register's state is and which issues the next receipt has"""

    def __init__(self, key=c.KEY, before=None, prevstart=None, total=0, restore=False, chain_next=None, ids=()):
        self.key = key
        self.last, self.lastjws = before if before is not None else (None, None)
        self.prevstart = prevstart              # (spec, jws) or None
        self.startjws = None
        self.total = total
        self.restore = restore
        self.chain_next = chain_next
        self.ids = list(ids)

    def issues(self, s, jws):
        """issues of receipt s; the state moves on if there are none"""
        bad = []
        null = True
        for x in s.sums:
            null = null and c.cents(x) == 0
        first = self.last is None
        prev, prevjws = self.last, self.lastjws
        restore = self.restore
        if first:
            if s.signed is None:
                bad.append('start_unsigned')
            if not null:
                bad.append('start_turnover')
            if s.kind != 'N':
                bad.append('start_type')
            if self.prevstart is not None:
                prev, prevjws = self.prevstart
                if s.zda != 'AT0' or prev.zda != 'AT0':
                    bad.append('cluster_open')
            restore = False
        elif s.signed is not None and s.kind == 'N' and null:
            restore = False
        elif restore:
            bad.append('restore')
        elif s.signed is not None and prev.signed is None:
            restore = True
        if prev is not None:
            for i in self.ids:
                if i == s.rid:
                    bad.append('dup')
                    break
            if s.reg != prev.reg:
                bad.append('reg')
            if (s.zda == 'AT0') != (prev.zda == 'AT0'):
                bad.append('systype')
            if s.ts < prev.ts:
                bad.append('date')
        if self.chain_next is not None:
            want = self.chain_next
        else:
            want = c.chain_value(s.reg if prevjws is None else prevjws)
        if s.chain != want:
            bad.append('chain' if not first else 'start_chain' if self.prevstart is None else 'cluster_chain')
        total = self.total
        if s.kind != 'T' and self.key is not None:
            total = total + sum(c.cents(x) for x in s.sums)
            if s.kind == 'N' and c.dec_counter(self.key, s.reg, s.rid, s.ctr) != total:
                bad.append('counter')
        if not bad:
            if first:
                self.startjws = jws
            self.last, self.lastjws = s, jws
            self.restore = restore
            self.total = total
            self.chain_next = None
            self.ids.append(s.rid)
        return bad


def state_for(m):
    """the real register state for a model state"""
    st = VS.CashRegisterState()
    st.startReceiptJWS = m.startjws
    st.lastReceiptJWS = m.lastjws
    st.lastTurnoverCounter = m.total
    st.needRestoreReceipt = m.restore
    st.chainNextTo = m.chain_next
    return st


def used_for(m, cls=VS.UsedReceiptIdsUnique):
    u = cls()
    for i in m.ids:
        u.add(i)
    return u


def same_state(env, st, m, what='the state after the DEP'):
    env.check(st.lastReceiptJWS == m.lastjws, what + ': last receipt')
    env.check(st.startReceiptJWS == m.startjws, what + ': start receipt')
    if m.key is not None:
        env.check(st.lastTurnoverCounter == m.total, what + ': running total')
    env.check(st.needRestoreReceipt == m.restore, what + ': outstanding zero receipt')
    env.check(st.chainNextTo == m.chain_next, what + ': pending chaining value')


def verifier(*certs):
    return verify_receipt.ReceiptVerifier.fromKeyStore(c.key_store(*(certs or ('LEAF', 'LEAFB', 'LEAFC'))))


def judge(env, m, specs, jws, run, exact=True, accepted='a DEP that obeys the rules is accepted',
          rejected='a DEP that breaks the rules is rejected'):
    """run() performs the verification and returns the register state. Its outcome
    is compared with the model. Returns the state or None."""
    bad = []
    at = None
    for s, j in zip(specs, jws):
        bad = m.issues(s, j)
        if bad:
            at = s
            break
    try:
        st = run()
    except (receipt.ReceiptException, depparser.DEPException) as e:
        env.check(len(bad) > 0, accepted)
        if exact:
            ok = False
            for b in bad:
                for t in ISSUES[b]:
                    ok = ok or isinstance(e, t)
            env.check(ok, 'the error names what is wrong')
            if isinstance(e, (V.DEPReceiptException, VS.DuplicateReceiptIdException)):
                ok = e.receipt == at.rid
                if isinstance(e, VS.DuplicateReceiptIdException):
                    # a DEP verified in parts: any of its duplicates
                    for i, s in enumerate(specs):
                        for r in m.ids + [x.rid for x in specs[:i]]:
                            ok = ok | ((e.receipt == s.rid) & (s.rid == r))
                env.check(ok, 'the error names the receipt')
        return None
    except Exception:
        env.fail('verification fails with verification errors only')
        return None
    env.check(len(bad) == 0, rejected)
    same_state(env, st, m)
    return st


def group(m, jws, rv, key='model', used=None):
    """a verifyGroup call for judge"""
    st, u = state_for(m), used if used is not None else used_for(m)
    k = m.key if key == 'model' else key
    ps = None if m.prevstart is None else m.prevstart[1]
    comp = [c.compact(j) for j in jws]
    return lambda: V.verifyGroup(comp, rv, k, ps, st, u)[0]


def dep_dict(groups):
    """DEP as JSON value; groups: [(cert name or '', [chain names], [jws])]"""
    return {'Belege-Gruppe': [{'Signaturzertifikat': '' if g[0] == '' else c.cert_b64(g[0]),
                               'Zertifizierungsstellen': [c.cert_b64(x) for x in g[1]],
                               'Belege-kompakt': list(g[2])} for g in groups]}


def cluster(m, extra=None):
    """cluster state with one register in the model's state"""
    cs = VS.ClusterState(VS.UsedReceiptIdsUnique)
    cs.cashRegisters.append(state_for(m))
    cs.usedReceiptIds = used_for(m)
    return cs


HOW = ['verifyDEP', 'parsed', 'chunks', 'procs', 'pool']


def whole(m, jws, ks, how, fresh=True, dep=None, key='model'):
    """a DEP verification for judge, in one of several ways"""
    k = m.key if key == 'model' else key
    d = dep if dep is not None else dep_dict([('', [], jws)])
    cs = None if fresh else cluster(m)
    idx = None if fresh else 0
    B = VS.UsedReceiptIdsUnique

    def run():
        if how == 'verifyDEP':
            r = V.verifyDEP(d, ks, k, cs, idx, B)
        else:
            pool, nprocs, chunk = dict(parsed=(None, 1, 100), chunks=(None, 1, 1), procs=(None, 2, 1),
                                       pool=(c.Pool(), 2, 2))[how]
            r = V.verifyParsedDEP(depparser.DictDEPParser(d, nprocs), ks, k, cs, idx, pool, nprocs, chunk, B)
        return r.cashRegisters[0 if idx is None else idx]
    return run
