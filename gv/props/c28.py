"""C28: error reports for bad messages are total and accurate.

MsgParseError.Error: the loop over the lines carries the line number i, the offset O(i) of line i in the message, the text W(i)
shown so far, and the pair (line, offset in line) found so far.  Invariant: the pair is (0, 0) when no line before i contains
the offset, and (j+1, Offset-O(j)) when line j does.  Step: W(i+1) = W(i), line i, a caret line when line i contains the
offset (Offset-O(i) blanks and a caret), and a line break unless it is the last line.  Which variable of the code plays which
part is found by trying (the parts are fixed by the obligations, not by names)."""
import itertools
from .common import *

REPLAY = [('sip', 'TestVerifC28')]
SECS = 5
TRUSTED = {'bytes.Split': 'the lines between the separators, in order, at least one'}
ASSUME = ['the message is shorter than 2^40 bytes and the offset lies in it (MsgParseError values are built by ParseMsg only, see C01)']

W = rapp('shown before line', 'i')
OFF = atom('Offset', 0, 1 << 40)
FIRST = {'i': 0, 'i-1': -1, 'o': 0, 'rest': OFF, 'line': 0, 'col': 0}


def verify(c):
    c.section('MsgIncompleteError.Error', incomplete, c)
    c.section('MsgParseError.Error', report, c)


def message(c, e, st):
    e.objtypes['msg^'] = ('bytes', 'message')
    r = ratom('message')
    st.heap['msg^'] = BytesObj(r, rlen(r), True)
    return SliceV('msg^', 0, rlen(r), rlen(r))


def incomplete(c):
    fn = '(sip.MsgIncompleteError).Error'
    e = c.engine(fn)
    st = c.state(e)
    for o in c.call(e, fn, [StructV([message(c, e, st)])], st):
        c.ensures(e, o, isinstance(o.result, Rope) and any(s == ratom('message')[0] for s in o.result), 'the report shows the whole message', fn)


def report(c):
    fn = c.fn('(sip.MsgParseError).Error')
    heads = fn.loop_heads()
    h = outer_loop(fn)
    phis = [i['n'] for i in fn.blocks[h]['instrs'][:fn.blocks[h]['nphi']]]
    best = None
    t = Trial(c, fn, h, {}, False)
    n = len(c.engines)
    try:
        t.run()
    except (Unsupported, Fork) as ex:
        t.err = ex
    del c.engines[n:]
    if t.start is None:
        raise t.err or Unsupported('the loop over the lines is not reached')
    # a variable can only play a part that starts with its value
    opts = [[r for r, v in FIRST.items() if V.same(t.start[p], v)] for p in phis]
    for roles, front in itertools.product(itertools.product(*opts), (False, True)):
        if len(set(roles)) < len(roles):
            continue
        t = Trial(c, fn, h, dict(zip(phis, roles)), front)
        n = len(c.engines)
        try:
            t.run()
            bad = len(t.e.failures)
        except (Unsupported, Fork) as ex:
            bad = 1000
            t.err = ex
        del c.engines[n - 0:]
        if t.e in c.engines:
            c.engines.remove(t.e)
        if best is None or bad < best[0]:
            best = (bad, t)
        if bad == 0:
            break
    if best is None:
        raise Unsupported('the loop over the lines has %d variables' % len(phis))
    if best[1].err:
        raise best[1].err
    c.engines.append(best[1].e)


class Trial:
    def __init__(self, c, fn, h, roles, front):
        self.c, self.fn, self.h, self.roles, self.front, self.err, self.start = c, fn, h, roles, front, None, None

    def run(self):
        c, fn = self.c, self.fn
        N = atom('number of lines', 1, 1 << 40)

        def line(i):
            return ratom('line:%r' % (i,))

        def split(e, st, a, ins):
            sep = e.slice_rope(st, a[1]) if not isinstance(e.res(st, a[1]), Rope) else e.res(st, a[1])
            src = e.slice_rope(st, a[0]) if not isinstance(e.res(st, a[0]), Rope) else e.res(st, a[0])
            c.ensures(e, st, src == ratom('message') and sep == rlit(b'\r\n'), 'the message is shown line by line', fn.name)

            def at(e, st, i):
                r = line(i)
                o = 'line:%r^' % (i,)
                st.heap.setdefault(o, BytesObj(r, rlen(r), True))
                e.objtypes[o] = ('bytes', 'line:%r' % (i,))
                return SliceV(o, 0, rlen(r), rlen(r))
            st.heap['lines^'] = SeqV('lines', at)
            return SliceV('lines^', 0, N, N)
        e = self.e = c.engine('sip.MsgParseError.Error', {}, {'bytes.Split': split})
        st = c.state(e)
        off = OFF
        i, O, LN, CO = atom('i', 0, 1 << 40), atom('O(i)', 0, 1 << 40), atom('line', 1, 1 << 40), atom('col', 0, 1 << 40)
        seen = set()

        def buffer(st):
            bs = [k for k, v in st.heap.items() if '#' in k and isinstance(v, BufV)]
            if len(bs) != 1:
                raise Unsupported('%d buffers' % len(bs))
            return bs[0]

        def outer(e, st, fr, blk, body):
            if fr.prev not in body:
                if self.start is None:
                    self.start = {x['n']: fr.regs[x['n']] for x in blk['instrs'][:blk['nphi']]}
                    if set(self.roles) != set(self.start):
                        raise Unsupported('roles')
                found = z3.Bool('found')
                d = e.decide(st, found)
                if d is None:
                    raise Fork(found)
                for n, r in self.roles.items():
                    c.ensures(e, st, V.same(fr.regs[n], FIRST[r]), 'starts at the first line', fn.name)
                b = buffer(st)
                c.ensures(e, st, st.heap[b].rope == EMPTY, 'starts with an empty report', fn.name)
                st.heap[b] = BufV(W)
                st.pc.append(zbool(lcmp('<=', i, N)))
                if d:
                    st.pc.append(zbool(lcmp('<', off, O)))
                for n, r in self.roles.items():
                    fr.regs[n] = {'i': i, 'i-1': ladd(i, -1), 'o': O, 'rest': lsub(off, O), 'line': LN if d else 0, 'col': CO if d else 0}[r]
                st.ghost['found'] = d
                return None
            seen.add('back')
            L = rlen(line(i))
            has = band(lcmp('<=', O, off), lcmp('<', off, ladd(O, L)))
            for s, inl in both(e, st, has):
                last = lcmp('==', i, ladd(N, -1))
                f = s.ghost['found']
                now = s.frames[-1].regs
                for n, r in self.roles.items():
                    want = {'i': ladd(i, 1), 'i-1': i, 'rest': lsub(off, ladd(ladd(O, L), 2)), 'o': ladd(ladd(O, L), 2),
                            'line': ladd(i, 1) if inl else LN if f else 0,
                            'col': lsub(off, O) if inl else CO if f else 0}[r]
                    c.ensures(e, s, lcmp('==', now[n], want), {'i': 'goes on to the next line', 'i-1': 'goes on to the next line', 'rest': 'keeps the offset of the line in the message', 'o': 'keeps the offset of the line in the message',
                                                             'line': 'remembers the line that contains the offset', 'col': 'remembers the offset in that line'}[r], fn.name)
                want = [*W, *line(i)]
                if inl:
                    want += [('L', b'\n'), 'caret', ('L', b'^')]
                got = s.heap[buffer(s)].rope
                # line breaks are written after all lines but the last, or before all but the first
                for s2, l in both(e, s, lcmp('==', i, 0) if self.front else last):
                    br = [] if l else [('L', b'\n')]
                    w = [*W, *br, *want[len(W):]] if self.front else want + br
                    c.ensures(e, s2, self.shows(e, s2, got, w, lsub(off, O)), 'the report shows the line%s' % (', blanks and a caret under the offset' if inl else ''), fn.name)
                seen.add(inl)
            raise X.PathDone()

        def inner(e, st, fr, blk, body):
            """A loop writing one blank per round: after j rounds the buffer has j blanks more."""
            js = [x['n'] for x in blk['instrs'][:blk['nphi']]]
            if len(js) != 1:
                raise Unsupported('inner loop with %d variables' % len(js))
            b = buffer(st)
            key = 'inner:%s:%d' % (fr.fn.name, fr.b)
            j = atom('j', 0, 1 << 40)
            col = lsub(off, O)
            if fr.prev not in body:
                j0 = fr.regs[js[0]]
                c.ensures(e, st, lcmp('>=', col, 0), 'blanks are written for a line that contains the offset', fn.name)
                down = V.same(j0, col) or j0 not in (0, -1)
                c.ensures(e, st, lcmp('==', j0, col) if down else j0 in (0, -1), 'counts the blanks', fn.name)
                st.ghost[key] = TupleV([st.heap[b].rope, j0, down])
                fr.regs[js[0]] = lsub(col, j) if down else ladd(j, j0)
                # blanks never exceed the offset in the line
                st.pc.append(zbool(lcmp('<=', j, col)))
                st.heap[b] = BufV(rcat(st.ghost[key][0], models.rep(b' ', j)))
                return None
            W0, j0, down = st.ghost[key]
            c.ensures(e, st, st.heap[b].rope == rcat(W0, models.rep(b' ', j), rlit(b' ')), 'each round writes one blank', fn.name)
            c.ensures(e, st, lcmp('==', fr.regs[js[0]], lsub(col, ladd(j, 1)) if down else ladd(ladd(j, j0), 1)), 'counts the blanks', fn.name)
            c.ensures(e, st, lcmp('<=', ladd(j, 1), col), 'no more blanks than the offset in the line', fn.name)
            raise X.PathDone()

        e.inv['*'] = inner
        for hd in fn.loop_heads():
            e.inv[(fn.name, e.loop_ordinal(fn, hd))] = outer if hd == self.h else inner
        for o in c.call(e, '(sip.MsgParseError).Error', [StructV([message(c, e, st), off])], st):
            r = o.result
            c.ensures(e, o, lcmp('==', i, N), 'all lines are shown', fn.name)
            body = isinstance(r, Rope) and len(r) > 0 and r[-1] == W[0]
            c.ensures(e, o, body, 'the report ends with the text shown', fn.name)
            f = o.ghost.get('found')
            if f:
                nums = [s[1] for s in r if s[0] == 'D']
                c.ensures(e, o, nums == [LN, CO], 'the report names the line and the offset in it', fn.name)
            seen.add('exit %s' % f)
        ok = seen >= {True, False, 'back', 'exit True', 'exit False'}
        c.ensures(e, st, ok, 'vacuity guard: all cases occur (%s)' % seen if not ok else 'vacuity guard', fn.name)

    def shows(self, e, st, got, want, col):
        """Text equality up to the number of blanks, which must equal col."""
        items = []
        for w in want:
            if w == 'caret':
                items.append(w)
            elif items and items[-1] != 'caret' and w[0] == 'L' and items[-1][0] == 'L':
                items[-1] = ('L', items[-1][1] + w[1])
            else:
                items.append(w)
        # no blanks at all when the column is 0
        g = list(got)
        out = []
        for w in items:
            if w == 'caret':
                if g and g[0][0] == 'F' and g[0][1] == 'rep' and g[0][2][0] == b' ':
                    out.append(lcmp('==', g[0][2][1], col))
                    g.pop(0)
                else:
                    out.append(lcmp('==', 0, col))
                continue
            if not g:
                return False
            if w[0] == 'L' and g[0][0] == 'L' and g[0][1].startswith(w[1]):
                rest = g[0][1][len(w[1]):]
                g[0:1] = [('L', rest)] if rest else []
            elif g[0] == w:
                g.pop(0)
            elif w[0] == 'A' and e.decide(st, lcmp('==', V.seg_len(w), 0)):
                continue
            else:
                return False
        if g:
            return False
        r = True
        for x in out:
            r = band(r, x)
        return r


def both(e, st, cond):
    d = e.decide(st, cond)
    if d is not None:
        return [(st, d)]
    out = []
    for s in e.split(st, cond):
        d = e.decide(s, cond)
        if d is not None:
            out.append((s, d))
    return out
