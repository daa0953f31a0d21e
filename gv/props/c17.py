"""C17: derived messages keep the identity of their transaction."""
from .common import *
from .lists import *
from .c19 import uris

REPLAY = [('dialog', 'TestVerifC17')]
ASSUME = ['lists are finite and acyclic', 'addresses have a URI', 'a hang-up is built from an answer that has a contact',
          'the standard phrases are those of RFC 3261 section 21 and its extensions (504 in either of its spellings)']

PHRASES = '''100 Trying
180 Ringing
181 Call Is Being Forwarded
182 Queued
183 Session Progress
200 OK
202 Accepted
204 No Notification
300 Multiple Choices
301 Moved Permanently
302 Moved Temporarily
305 Use Proxy
380 Alternative Service
400 Bad Request
401 Unauthorized
402 Payment Required
403 Forbidden
404 Not Found
405 Method Not Allowed
406 Not Acceptable
407 Proxy Authentication Required
408 Request Timeout
410 Gone
412 Conditional Request Failed
413 Request Entity Too Large
414 Request-URI Too Long
415 Unsupported Media Type
416 Unsupported URI Scheme
417 Unknown Resource-Priority
420 Bad Extension
421 Extension Required
422 Session Interval Too Small
423 Interval Too Brief
428 Use Identity Header
429 Provide Referrer Identity
430 Flow Failed
433 Anonymity Disallowed
436 Bad Identity-Info
437 Unsupported Certificate
438 Invalid Identity Header
439 First Hop Lacks Outbound Support
440 Max-Breadth Exceeded
470 Consent Needed
480 Temporarily Unavailable
481 Call/Transaction Does Not Exist
482 Loop Detected
483 Too Many Hops
484 Address Incomplete
485 Ambiguous
486 Busy Here
487 Request Terminated
488 Not Acceptable Here
489 Bad Event
491 Request Pending
493 Undecipherable
494 Security Agreement Required
500 Server Internal Error|Internal Server Error
501 Not Implemented
502 Bad Gateway
503 Service Unavailable
504 Server Time-out|Gateway Time-out
505 Version Not Supported
513 Message Too Large
580 Precondition Failure
600 Busy Everywhere
603 Decline
604 Does Not Exist Anywhere
606 Not Acceptable'''


def verify(c):
    L = Lists(c.prog)
    L.discharge(c, ['(*sip.Via).Copy', '(*sip.Addr).Copy', '(*sip.URI).Copy', '(*sip.Addr).Reversed'])
    c.section('standard phrases', phrases, c)
    c.section('NewResponse', response, c, L)
    c.section('NewAck', ack, c, L)
    c.section('NewCancel', cancel, c, L)
    c.section('NewBye', bye, c, L)
    c.section('NewRequest', request, c, L)


def phrases(c):
    fn = 'sip.Phrase'
    e = c.engine(fn)
    for l in PHRASES.split('\n'):
        n, t = l.split(' ', 1)
        for o in c.call(e, fn, [int(n)]):
            c.ensures(e, o, any(e.decide(o, e.equal(o, o.result, rlit(x.encode()), None)) for x in t.split('|')), 'the phrase of %s is "%s"' % (n, t), fn)
    s = atom('status', -1 << 63, (1 << 63) - 1)
    for o in c.call(e, fn, [s]):
        c.ensures(e, o, lcmp('>', rlen(o.result), 0), 'every status has a phrase', fn)


class Case:
    """One derived-message function: expected value of each field of the result."""

    def __init__(self, c, L, fn, extra=None):
        self.c, self.fn, self.L = c, fn, L
        con = dict(L.C)
        con['sip.Phrase'] = lambda e, st, a, ins: ratom('phrase:%r' % (a[0],))
        con['(*sip.Msg).String'] = lambda e, st, a, ins: ratom('text of a message')
        con.update(extra or {})
        self.e = c.engine(fn, con)
        self.m = Msgs(c, self.e)
        uris(self.e, None, self.m)

    def same(self, s, a, b, what):
        e = self.e
        a, b = e.res(s, a), e.res(s, b)
        ok = V.same(a, b)
        if not ok and isinstance(a, Ptr) and isinstance(b, Ptr):
            ok = a.null is True and e.decide(s, b.null) is True or b.null is True and e.decide(s, a.null) is True or \
                a.obj == b.obj and a.path == b.path
        elif not ok:
            ok = same_val(e, s, a, b)
        self.c.ensures(e, s, ok, what, self.fn)

    def result(self, o, want):
        """Every field of the message returned: as given by want, otherwise unset."""
        e, m = self.e, self.m
        r = e.res(o, o.result)
        self.c.ensures(e, o, isinstance(r, Ptr) and r.null is False and isnew(r.obj), 'the result is a new message', self.fn)
        for n, v in m.obj(o, r, 'sip.Msg').items():
            w = want.pop(n, None)
            if w is None:
                v = e.res(o, v)
                z = v.null is True if isinstance(v, Ptr) else same_val(e, o, v, EMPTY) if isinstance(v, Rope) else \
                    isnil(e, o, v) if isinstance(v, (Iface, SymIface)) else lcmp('==', v, 0)
                if n in ('UserAgent', 'Allow', 'MaxForwards', 'VersionMajor', 'VersionMinor', 'Phrase', 'Contact', 'Supported'):
                    continue
                self.c.ensures(e, o, z, 'field %s stays unset' % n, self.fn)
            elif callable(w):
                w(o, v)
            else:
                self.same(o, v, w, 'field %s is the one of the transaction' % n)

    def each(self, outs, spec, frame_ok=()):
        for o in outs:
            frame(self.c, self.e, o, self.fn, frame_ok, 'the messages it is derived from stay as they are')
            ev(self.e, o, spec)
            self.c.obligation(True, 'path of %s' % self.fn)

    def text(self, t):
        def f(s, v):
            self.c.ensures(self.e, s, self.e.equal(s, v, rlit(t.encode()), None), 'the method is %s' % t, self.fn)
        return f


def response(c, L):
    k = Case(c, L, 'dialog.NewResponse')
    m, e = k.m, k.e
    msg = m.ptr('req', 'sip.Msg', False)
    s = atom('status', 100, 699)

    def spec(o):
        q = m.obj(o, msg, 'sip.Msg')
        k.result(o, {'Status': s, 'Phrase': ratom('phrase:%r' % (s,)), 'Via': q['Via'], 'From': q['From'], 'To': q['To'],
                     'CallID': q['CallID'], 'CSeq': q['CSeq'], 'CSeqMethod': q['CSeqMethod'], 'RecordRoute': q['RecordRoute']})
    k.each(c.call(e, k.fn, [msg, s]), spec)


def ack(c, L):
    k = Case(c, L, 'dialog.NewAck')
    m, e = k.m, k.e
    msg, inv = m.ptr('msg', 'sip.Msg', False), m.ptr('inv', 'sip.Msg', False)
    m.ptr('msg.Via', 'sip.Via', False)
    st = c.state(e)
    v0 = e.objval(st, 'msg^')
    i = m.fields('sip.Msg').index('Via')
    st.heap['msg^'] = v0.set(i, nn(v0.f[i]))
    e.base = dict(e.base)
    e.base['msg^'] = st.heap['msg^']

    def spec(o):
        q, v = m.obj(o, msg, 'sip.Msg'), m.obj(o, inv, 'sip.Msg')
        ct = e.res(o, q['Contact'])
        req = v['Request'] if isnil(e, o, ct) else m.get(o, ct, 'sip.Addr', 'Uri')

        def via(s, x):
            x = e.res(s, x)
            c.ensures(e, s, isinstance(x, Ptr) and x.null is False and isnew(x.obj), 'the Via is a copy', k.fn)
            for n, f in m.obj(s, x, 'sip.Via').items():
                if n == 'Next':
                    c.ensures(e, s, isnil(e, s, f), 'only the topmost Via', k.fn)
                else:
                    k.same(s, f, m.obj(s, q['Via'], 'sip.Via')[n], 'Via %s is the topmost one' % n)
        k.result(o, {'Method': k.text('ACK'), 'CSeqMethod': k.text('ACK'), 'Request': req, 'From': q['From'], 'To': q['To'],
                     'Via': via, 'CallID': q['CallID'], 'CSeq': q['CSeq'],
                     'Route': L.C['(*sip.Addr).Reversed'](e, o, [q['RecordRoute']], None),
                     'Authorization': v['Authorization'], 'ProxyAuthorization': v['ProxyAuthorization']})
    k.each(c.call(e, k.fn, [msg, inv], st), spec)


def cancel(c, L):
    k = Case(c, L, 'dialog.NewCancel')
    m, e = k.m, k.e
    inv = m.ptr('inv', 'sip.Msg', False)

    def spec(o):
        q = m.obj(o, inv, 'sip.Msg')
        k.result(o, {'Method': k.text('CANCEL'), 'CSeqMethod': k.text('CANCEL'), 'Request': q['Request'], 'Via': q['Via'],
                     'From': q['From'], 'To': q['To'], 'CallID': q['CallID'], 'CSeq': q['CSeq'], 'Route': q['Route']})
    k.each(c.call(e, k.fn, [inv]), spec)


def bye(c, L):
    for null in (False, True):
        k = Case(c, L, 'dialog.NewBye')
        m, e = k.m, k.e
        inv, rem = m.ptr('inv', 'sip.Msg', False), m.ptr('rem', 'sip.Msg', False)
        st = c.state(e)
        v0 = e.objval(st, 'rem^')
        i = m.fields('sip.Msg').index('Contact')
        st.heap['rem^'] = v0.set(i, nn(v0.f[i]))
        e.base = dict(e.base)
        e.base['rem^'] = st.heap['rem^']
        n = atom('lseq', -1 << 62, 1 << 62)
        e.objtypes['lseq^'] = c.prog.type_by_name('int')
        st.heap['lseq^'] = n
        lseq = NIL if null else Ptr('lseq^', (), False)

        def spec(o):
            q, r = m.obj(o, inv, 'sip.Msg'), m.obj(o, rem, 'sip.Msg')
            want = ladd(q['CSeq'] if null else n, 1)
            k.result(o, {'Method': k.text('BYE'), 'CSeqMethod': k.text('BYE'),
                         'Request': m.get(o, r['Contact'], 'sip.Addr', 'Uri'), 'From': q['From'], 'To': r['To'], 'CallID': q['CallID'],
                         'Route': L.C['(*sip.Addr).Reversed'](e, o, [r['RecordRoute']], None),
                         'CSeq': lambda s, v: c.ensures(e, s, to_bv(v, 64) == to_bv(want, 64), 'the hang-up uses the next sequence number', k.fn)})
            if not null:
                c.ensures(e, o, to_bv(o.heap['lseq^'], 64) == to_bv(want, 64), 'the sequence number is used up', k.fn)
        k.each(c.call(e, k.fn, [inv, rem, lseq], st), spec, ('lseq^',))


def request(c, L):
    k = Case(c, L, 'dialog.NewRequest')
    m, e = k.m, k.e
    tp, to, frm = m.ptr('tp', 'dialog.Transport', False), m.ptr('to', 'sip.Addr', False), m.ptr('from', 'sip.Addr')
    meth = ratom('method')
    st = c.state(e)
    v0 = e.objval(st, 'tp^')
    for f in ('Via', 'Contact'):
        i = m.fields('dialog.Transport').index(f)
        v0 = v0.set(i, nn(v0.f[i]))
    st.heap['tp^'] = v0
    e.base = dict(e.base)
    e.base['tp^'] = v0

    def spec(o):
        T = m.obj(o, tp, 'dialog.Transport')
        src = T['Contact'] if isnil(e, o, frm) else frm

        def copy(old, t, what, kind=None, tag=None):
            def f(s, x):
                iscopy(c, e, s, m, x, old, t, what, k.fn, ('Param',) if kind else ())
                if kind:
                    p = m.obj(s, m.get(s, x, t, 'Param'), 'sip.Param')
                    c.ensures(e, s, e.equal(s, p['Name'], rlit(tag), None), '%s gets a %s' % (what, kind), k.fn)
                    c.ensures(e, s, isfresh(p['Value'], kind), '%s gets a fresh %s' % (what, kind), k.fn)
                    k.same(s, p['Next'], m.get(s, old, t, 'Param'), '%s keeps its other parameters' % what)
            return f
        k.result(o, {'Method': lambda s, v: k.same(s, v, meth, 'the method is the one given'),
                     'CSeqMethod': lambda s, v: k.same(s, v, meth, 'the method is the one given'),
                     'Request': copy(m.get(o, to, 'sip.Addr', 'Uri'), 'sip.URI', 'the target'),
                     'Via': copy(T['Via'], 'sip.Via', 'the Via', 'branch', b'branch'),
                     'From': copy(src, 'sip.Addr', 'the sender', 'tag', b'tag'),
                     'To': copy(to, 'sip.Addr', 'the recipient'),
                     'CallID': lambda s, v: c.ensures(e, s, isfresh(v, 'callid'), 'the Call-ID is fresh', k.fn),
                     'CSeq': lambda s, v: c.ensures(e, s, 'fresh:cseq' in repr(v), 'the sequence number is generated', k.fn)})
    k.each(c.call(e, k.fn, [tp, meth, to, frm], st), spec)
