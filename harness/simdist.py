"""In-process simulation of torch.distributed for many ranks.

Ranks are threads; exactly one runs at any time (baton passing), and control changes hands only at
communication calls, in an order chosen by a seeded/explicit policy.  Message semantics are the
weakest ones the torch.distributed contract admits:

  * a collective completes only when every member of the group has issued the matching call
    (same kind, compatible sizes and dtypes) at the same position of its sequence for that group;
  * a send completes only once the matching receive is posted (rendezvous), FIFO per (group,src,dst);
  * the destination buffer of an asynchronous operation holds garbage (poison) until wait();
    the source buffer must not change before wait().

Deviations are recorded in World.faults (dicts with 'kind') instead of hanging; every call is logged
in World.log as (rank, group, seq, op, detail) for validation against the specification.
"""
import threading, random, sys
import torch
import torch.distributed as dist

_tls = threading.local()
_real = {}


class SimDeadlock(RuntimeError):
    pass


class SimMismatch(RuntimeError):
    pass


class SimGroup:
    """A process-group handle.  members(rank) gives the tuple of global ranks of the caller's group."""

    def __init__(self, name, members):
        self.name = name
        self.members = members
        self.destroyed = 0

    def ranks(self, rank):
        return tuple(self.members(rank))

    def size(self):
        return len(self.ranks(_tls.rank))

    def rank(self):
        return self.ranks(_tls.rank).index(_tls.rank)

    def __deepcopy__(self, memo):
        return self


def grid_groups(npol, naz):
    """rank = polar_index * naz + azimuth_index"""
    pol = SimGroup("polar", lambda r: tuple(p * naz + r % naz for p in range(npol)))
    az = SimGroup("azimuth", lambda r: tuple((r // naz) * naz + a for a in range(naz)))
    return pol, az


def poison_(t):
    with torch.no_grad():
        if t.numel() == 0:
            return
        if t.is_complex():
            t.fill_(complex(float("nan"), float("nan")))
        elif t.is_floating_point():
            t.fill_(float("nan"))
        elif t.dtype == torch.bool:
            t.fill_(True)
        else:
            t.fill_(-77)


def _same(a, b):
    if a.numel() == 0:
        return True
    if a.is_complex():
        a, b = torch.view_as_real(a.resolve_conj()), torch.view_as_real(b.resolve_conj())
    return torch.equal(torch.nan_to_num(a) if a.is_floating_point() else a, torch.nan_to_num(b) if b.is_floating_point() else b) and (
        not a.is_floating_point() or torch.equal(torch.isnan(a), torch.isnan(b))
    )


class Work:
    def __init__(self, world, rank, ready, finish, what, at=None):
        self.w, self.r, self.ready, self.finish, self.what = world, rank, ready, finish, what
        self.done = False
        self.at = len(world.ev[rank]) if at is None else at
        world.pending[rank].append(self)

    def wait(self, timeout=None):
        if not self.done:
            self.w.note(_tls.rank, "wait", self.what)
            if self.w.keep_log:
                self.w.ev[_tls.rank].append(dict(k="W", of=self.at, own=int(self.r == _tls.rank)))
            self.w.block_until(self.ready, "wait:" + str(self.what))
            if not self.done:
                self.finish()
                self.done = True
                if self in self.w.pending[self.r]:
                    self.w.pending[self.r].remove(self)
        return True

    def is_completed(self):
        return self.done

    def synchronize(self):
        self.wait()

    def get_future(self):
        raise NotImplementedError


class World:
    def __init__(self, n, policy=None, seed=0, keep_log=True, timeout=None):
        self.n = n
        self.rng = random.Random(seed)
        self.policy = policy  # None=random, "rr", "first", "last", or list of priorities
        self.slots = {}
        self.seq = {}
        self.p2p = {}
        self.p2pseq = {}
        self.faults = []
        self.log = []
        self.keep_log = keep_log
        self.pending = {r: [] for r in range(n)}
        self.wid = 0
        self.ev = [[] for _ in range(n)]  # per-rank communication program (for the specification)

    # ---------------------------------------------------------------- scheduling
    def note(self, rank, op, detail, group=None, seq=None):
        if self.keep_log:
            self.log.append(dict(rank=rank, op=op, group=group, seq=seq, d=detail))

    def fault(self, kind, **kw):
        d = dict(kind=kind, **kw)
        if len(self.faults) < 50:
            self.faults.append(d)

    def _pick(self, cands):
        p = self.policy
        if p == "first":
            return min(cands)
        if p == "last":
            return max(cands)
        if isinstance(p, (list, tuple)):
            return min(cands, key=lambda r: p[r])
        if p == "rr":
            nxt = [c for c in cands if c > self._cur]
            return min(nxt) if nxt else min(cands)
        return self.rng.choice(sorted(cands))

    def _switch(self):
        """called by the running rank holding the baton; picks who goes next."""
        me = _tls.rank
        while True:
            if self.abort is not None:
                raise self.abort
            cands = [r for r in range(self.n) if self.state[r] == "run" or (self.state[r] == "blk" and self.cond[r]())]
            if not cands:
                self.abort = SimDeadlock("deadlock: " + "; ".join(f"rank {r} {self.state[r]} at {self.where[r]}" for r in range(self.n)))
                self.fault("deadlock", where={str(r): self.where[r] for r in range(self.n)})
                self._wake_all()
                raise self.abort
            nxt = self._pick(cands)
            self._cur = nxt
            if nxt == me:
                return
            self.sem[nxt].release()
            self.sem[me].acquire()
            if self.abort is not None:
                raise self.abort
            if self._cur == me:
                return

    def _wake_all(self):
        for r in range(self.n):
            self.sem[r].release()

    def yield_point(self):
        if self.n > 1:
            self._switch()

    def block_until(self, cond, where):
        me = _tls.rank
        self.where[me] = where
        if self.n == 1:
            if not cond():
                self.fault("deadlock", where={"0": where})
                raise SimDeadlock(where)
            return
        self.state[me] = "blk"
        self.cond[me] = cond
        self._switch()
        while not cond():
            self._switch()
        self.state[me] = "run"
        self.where[me] = "run"

    def run(self, fn):
        """run fn(rank) on every rank; returns list of ('ok', value) or ('err', exception)"""
        n = self.n
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.state = ["run"] * n
        self.cond = [None] * n
        self.where = ["start"] * n
        self.abort = None
        self._cur = 0
        res = [None] * n
        alldone = threading.Event()

        def body(r):
            _tls.rank = r
            _tls.world = self
            self.sem[r].acquire()
            try:
                if self.abort is not None:
                    raise self.abort
                res[r] = ("ok", fn(r))
            except BaseException as e:  # noqa
                res[r] = ("err", e)
            self.state[r] = "done"
            self.where[r] = "done" if res[r][0] == "ok" else "failed"
            left = [q for q in range(n) if self.state[q] != "done"]
            if not left:
                alldone.set()
                return
            if self.abort is None:
                cands = [q for q in left if self.state[q] == "run" or (self.state[q] == "blk" and self.cond[q]())]
                if not cands:
                    self.abort = SimDeadlock("deadlock: " + "; ".join(f"rank {q} {self.state[q]} at {self.where[q]}" for q in range(n)))
                    self.fault("deadlock", where={str(q): self.where[q] for q in range(n)})
                    self._wake_all()
                else:
                    self._cur = self._pick(cands)
                    self.sem[self._cur].release()
            else:
                self._wake_all()

        ths = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(n)]
        for t in ths:
            t.start()
        self._cur = self._pick(list(range(n))) if self.policy != "rr" else 0
        self.sem[self._cur].release()
        alldone.wait()
        for t in ths:
            t.join()
        for r in range(n):
            for wk in self.pending[r]:
                self.fault("unwaited", rank=r, what=str(wk.what))
        for k, s in self.slots.items():
            self.fault("incomplete", group=str(k[0]), seq=k[1], op=s["op"])
        for k, q in self.p2p.items():
            for d in ("s", "r"):
                for m in q[d]:
                    if not m["matched"]:
                        self.fault("unmatched_p2p", key=str(k), dir=d)
        return res

    # ---------------------------------------------------------------- collectives
    def collective(self, group, op, spec, ins, outs, move, check, async_op):
        """ins: tensors read, outs: tensors written; move(slot) performs this rank's part after all posted."""
        me = _tls.rank
        ranks = group.ranks(me)
        if me not in ranks:
            self.fault("not_member", rank=me, group=group.name)
            raise SimMismatch("rank not in group")
        for t in list(ins) + list(outs):
            if not t.is_contiguous():
                self.fault("noncontiguous", rank=me, op=op)
                raise SimMismatch(f"{op}: tensors must be contiguous")
        gkey = (group.name, ranks)
        k = self.seq.get((gkey, me), 0)
        self.seq[(gkey, me)] = k + 1
        self.note(me, op, spec, group=group.name + str(list(ranks)), seq=k)
        if self.keep_log:
            self.ev[me].append(dict(k="A" if async_op else "C", op=op, g=group.name, m=[r + 1 for r in ranks], n=k + 1, ins=[t.numel() for t in ins], outs=[t.numel() for t in outs], dt=sorted({str(t.dtype) for t in list(ins) + list(outs)}), red=str(spec[-1]) if "reduce" in op else ""))
            if op == "all_to_all_single":
                ni, no = [t.numel() // max(1, t.shape[0]) for t in (ins[0], outs[0])]
                self.ev[me][-1].update(ins=[v * ni for v in spec[2]], outs=[v * no for v in spec[3]])
        at = len(self.ev[me])
        skey = (gkey, k)
        slot = self.slots.get(skey)
        if slot is None:
            slot = self.slots[skey] = dict(op=op, args={}, err=None, taken=set(), n=len(ranks), snap={})
        if slot["op"] != op:
            slot["err"] = f"{slot['op']} vs {op}"
            self.fault("op_mismatch", group=group.name, seq=k, detail=slot["err"], ranks=list(ranks))
        slot["args"][me] = (spec, ins, outs)
        slot["snap"][me] = [t.detach().clone() for t in ins]
        inset = {t.data_ptr() for t in ins if t.numel()}
        pois = [(t, None) for t in outs]
        if async_op:
            for t in outs:
                if t.data_ptr() not in inset:
                    poison_(t)
            psnap = [t.detach().clone() for t in outs]
        if len(slot["args"]) == len(ranks) and slot["err"] is None:
            e = check(slot, ranks)
            if e:
                slot["err"] = e
                self.fault("shape_mismatch", group=group.name, seq=k, op=op, detail=e, ranks=list(ranks))

        def ready():
            return slot["err"] is not None or len(slot["args"]) == len(ranks)

        def finish():
            if slot["err"] is not None:
                self.slots.pop(skey, None)
                raise SimMismatch(f"{op}: {slot['err']}")
            for t, s in zip(ins, slot["snap"][me]):
                if not _same(t.detach(), s):
                    self.fault("send_buffer_modified", rank=me, op=op)
            if async_op:
                for t, s in zip(outs, psnap):
                    if not _same(t.detach(), s):
                        self.fault("recv_buffer_touched", rank=me, op=op)
            with torch.no_grad():
                move(slot, ranks)
            slot["taken"].add(me)
            if len(slot["taken"]) == len(ranks):
                self.slots.pop(skey, None)

        if async_op:
            self.yield_point()
            self.wid += 1
            return Work(self, me, ready, finish, f"{op}#{self.wid}", at)
        self.yield_point()
        self.block_until(ready, f"{op}@{group.name}#{k}")
        finish()
        return None

    def post_p2p(self, kind, tensor, peer, group, tag=0):
        me = _tls.rank
        if group is not None and peer not in group.ranks(me):
            self.fault("p2p_peer_not_in_group", rank=me, peer=peer)
            raise SimMismatch("peer not in group")
        if peer == me:
            self.fault("p2p_self", rank=me)
            raise SimMismatch("send/recv to self")
        if not tensor.is_contiguous():
            self.fault("noncontiguous", rank=me, op=kind)
            raise SimMismatch(f"{kind}: tensors must be contiguous")
        gname = group.name if group is not None else "world"
        src, dst = (me, peer) if kind == "send" else (peer, me)
        key = (gname, src, dst, tag)
        q = self.p2p.setdefault(key, dict(s=[], r=[]))
        mine, other = (q["s"], q["r"]) if kind == "send" else (q["r"], q["s"])
        msg = dict(t=tensor, matched=False, snap=None, mate=None, kind=kind, done=False)
        if kind == "send":
            msg["snap"] = tensor.detach().clone()
        else:
            poison_(tensor)
            msg["snap"] = tensor.detach().clone()
        self.note(me, kind, [list(tensor.shape), str(tensor.dtype), peer], group=gname, seq=len(mine))
        idx = len(mine)
        if self.keep_log:
            self.ev[me].append(dict(k="S" if kind == "send" else "R", g=gname, tag=tag, peer=peer + 1, n=idx + 1, ins=[tensor.numel()], dt=[str(tensor.dtype)]))
        at = len(self.ev[me])
        mine.append(msg)
        if idx < len(other):
            mate = other[idx]
            msg["mate"], mate["mate"] = mate, msg
            msg["matched"] = mate["matched"] = True
            if mate["t"].numel() != tensor.numel() or mate["t"].dtype != tensor.dtype:
                self.fault("p2p_shape_mismatch", key=str(key), a=str(tuple(tensor.shape)), b=str(tuple(mate["t"].shape)))
                msg["err"] = mate["err"] = True

        def ready():
            return msg["matched"]

        def finish():
            if msg.get("err"):
                raise SimMismatch(f"{kind}: message size mismatch")
            if not _same(msg["t"].detach(), msg["snap"]):
                self.fault("send_buffer_modified" if kind == "send" else "recv_buffer_touched", rank=me, op=kind)
            if kind == "recv":
                with torch.no_grad():
                    msg["t"].copy_(msg["mate"]["snap"].reshape(msg["t"].shape))
            msg["done"] = True

        self.wid += 1
        return Work(self, me, ready, finish, f"{kind}#{self.wid}", at)


class _SoloWorld(World):
    pass


def _world():
    w = getattr(_tls, "world", None)
    return w


def current_rank():
    return getattr(_tls, "rank", 0)


# -------------------------------------------------------------------- torch.distributed replacements
def _grp(group):
    if group is None:
        w = _world()
        return SimGroup("world", lambda r: tuple(range(w.n if w else 1)))
    return group


def get_world_size(group=None):
    return len(_grp(group).ranks(current_rank()))


def get_rank(group=None):
    if group is None:
        return current_rank()
    rs = group.ranks(current_rank())
    return rs.index(current_rank()) if current_rank() in rs else -1


def get_process_group_ranks(group=None):
    return list(_grp(group).ranks(current_rank()))


def get_global_rank(group, group_rank):
    return group.ranks(current_rank())[group_rank]


def get_group_rank(group, global_rank):
    return group.ranks(current_rank()).index(global_rank)


def _desc(t):
    return [list(t.shape), str(t.dtype).replace("torch.", "")]


def all_gather(tensor_list, tensor, group=None, async_op=False):
    g, w, me = _grp(group), _world(), current_rank()

    def check(slot, ranks):
        for i, r in enumerate(ranks):
            for q in ranks:
                o = slot["args"][r][2][ranks.index(q)]
                s = slot["args"][q][1][0]
                if o.numel() != s.numel() or o.dtype != s.dtype:
                    return f"all_gather recv {tuple(o.shape)} at {r} vs send {tuple(s.shape)} at {q}"
        return None

    def move(slot, ranks):
        for j, q in enumerate(ranks):
            tensor_list[j].copy_(slot["snap"][q][0].reshape(tensor_list[j].shape))

    if len(tensor_list) != len(g.ranks(me)):
        w.fault("list_length", op="all_gather", rank=me)
        raise SimMismatch("all_gather list length")
    return w.collective(g, "all_gather", [_desc(tensor)], [tensor], list(tensor_list), move, check, async_op)


def all_to_all(output_tensor_list, input_tensor_list, group=None, async_op=False):
    g, w, me = _grp(group), _world(), current_rank()
    n = len(g.ranks(me))
    if len(output_tensor_list) != n or len(input_tensor_list) != n:
        w.fault("list_length", op="all_to_all", rank=me)
        raise SimMismatch("all_to_all list length")

    def check(slot, ranks):
        for i, r in enumerate(ranks):
            for j, q in enumerate(ranks):
                o = slot["args"][r][2][j]
                s = slot["args"][q][1][i]
                if o.numel() != s.numel() or o.dtype != s.dtype:
                    return f"all_to_all recv {tuple(o.shape)} at {r} from {q} vs send {tuple(s.shape)}"
        return None

    def move(slot, ranks):
        i = ranks.index(me)
        for j, q in enumerate(ranks):
            output_tensor_list[j].copy_(slot["snap"][q][i].reshape(output_tensor_list[j].shape))

    return w.collective(g, "all_to_all", [[_desc(t) for t in input_tensor_list], [_desc(t) for t in output_tensor_list]], list(input_tensor_list), list(output_tensor_list), move, check, async_op)


def all_to_all_single(output, input, output_split_sizes=None, input_split_sizes=None, group=None, async_op=False):
    g, w, me = _grp(group), _world(), current_rank()
    n = len(g.ranks(me))
    isz = list(input_split_sizes) if input_split_sizes else [input.shape[0] // n] * n
    osz = list(output_split_sizes) if output_split_sizes else [output.shape[0] // n] * n
    if sum(isz) != input.shape[0] or sum(osz) != output.shape[0] or len(isz) != n or len(osz) != n:
        w.fault("list_length", op="all_to_all_single", rank=me)
        raise SimMismatch("all_to_all_single splits")

    def check(slot, ranks):
        for i, r in enumerate(ranks):
            for j, q in enumerate(ranks):
                o = list(slot["args"][r][2][0].split(slot["args"][r][0][3], 0))[j]
                s = list(slot["args"][q][1][0].split(slot["args"][q][0][2], 0))[i]
                if o.numel() != s.numel() or o.dtype != s.dtype:
                    return "all_to_all_single size"
        return None

    def move(slot, ranks):
        i = ranks.index(me)
        oc = list(output.split(osz, 0))
        for j, q in enumerate(ranks):
            s = list(slot["snap"][q][0].split(slot["args"][q][0][2], 0))[i]
            oc[j].copy_(s.reshape(oc[j].shape))

    return w.collective(g, "all_to_all_single", [_desc(input), _desc(output), isz, osz], [input], [output], move, check, async_op)


def _redop(op):
    s = str(op)
    return "sum" if "SUM" in s else "max" if "MAX" in s else "min" if "MIN" in s else "prod" if "PROD" in s else "avg" if "AVG" in s else s


def _combine(ts, op):
    # reduction order is unspecified by the contract; rank order is one admissible choice
    acc = ts[0].clone()
    for t in ts[1:]:
        if op in ("sum", "avg"):
            acc += t
        elif op == "max":
            acc = torch.maximum(acc, t)
        elif op == "min":
            acc = torch.minimum(acc, t)
        elif op == "prod":
            acc *= t
        else:
            raise NotImplementedError(op)
    if op == "avg":
        acc /= len(ts)
    return acc


def all_reduce(tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
    g, w, me = _grp(group), _world(), current_rank()
    o = _redop(op)

    def check(slot, ranks):
        s0 = slot["args"][ranks[0]]
        for r in ranks:
            a = slot["args"][r]
            if tuple(a[1][0].shape) != tuple(s0[1][0].shape) or a[1][0].dtype != s0[1][0].dtype or a[0][-1] != s0[0][-1]:
                return f"all_reduce {tuple(a[1][0].shape)} {a[1][0].dtype} vs {tuple(s0[1][0].shape)} {s0[1][0].dtype}"
        return None

    def move(slot, ranks):
        tensor.copy_(_combine([slot["snap"][q][0] for q in ranks], o))

    return w.collective(g, "all_reduce", [_desc(tensor), o], [tensor], [tensor], move, check, async_op)


def reduce_scatter(output, input_list, op=dist.ReduceOp.SUM, group=None, async_op=False):
    g, w, me = _grp(group), _world(), current_rank()
    o = _redop(op)
    n = len(g.ranks(me))
    if len(input_list) != n:
        w.fault("list_length", op="reduce_scatter", rank=me)
        raise SimMismatch("reduce_scatter list length")

    def check(slot, ranks):
        for i, r in enumerate(ranks):
            out = slot["args"][r][2][0]
            for q in ranks:
                s = slot["args"][q][1][i]
                if out.numel() != s.numel() or out.dtype != s.dtype:
                    return f"reduce_scatter out {tuple(out.shape)} at {r} vs in {tuple(s.shape)} at {q}"
                if s.numel() != slot["args"][q][1][0].numel():
                    return "reduce_scatter unequal chunks"
        return None

    def move(slot, ranks):
        i = ranks.index(me)
        output.copy_(_combine([slot["snap"][q][i] for q in ranks], o).reshape(output.shape))

    return w.collective(g, "reduce_scatter", [[_desc(t) for t in input_list], o], list(input_list), [output], move, check, async_op)


def reduce_scatter_tensor(output, input, op=dist.ReduceOp.SUM, group=None, async_op=False):
    g, w, me = _grp(group), _world(), current_rank()
    o = _redop(op)

    def check(slot, ranks):
        for r in ranks:
            if slot["args"][r][1][0].numel() != slot["args"][ranks[0]][1][0].numel():
                return "reduce_scatter_tensor size"
            if slot["args"][r][2][0].numel() * len(ranks) != slot["args"][r][1][0].numel():
                return "reduce_scatter_tensor out size"
        return None

    def move(slot, ranks):
        i = ranks.index(me)
        tot = _combine([slot["snap"][q][0].reshape(-1) for q in ranks], o)
        m = output.numel()
        output.copy_(tot[i * m : (i + 1) * m].reshape(output.shape))

    return w.collective(g, "reduce_scatter_tensor", [_desc(input), o], [input], [output], move, check, async_op)


def all_gather_into_tensor(output_tensor, input_tensor, group=None, async_op=False):
    g, w, me = _grp(group), _world(), current_rank()

    def check(slot, ranks):
        for r in ranks:
            if slot["args"][r][1][0].numel() != slot["args"][ranks[0]][1][0].numel():
                return "all_gather_into_tensor unequal"
            if slot["args"][r][2][0].numel() != slot["args"][r][1][0].numel() * len(ranks):
                return "all_gather_into_tensor out size"
        return None

    def move(slot, ranks):
        output_tensor.copy_(torch.cat([slot["snap"][q][0].reshape(-1) for q in ranks]).reshape(output_tensor.shape))

    return w.collective(g, "all_gather_into_tensor", [_desc(input_tensor)], [input_tensor], [output_tensor], move, check, async_op)


def broadcast(tensor, src=0, group=None, async_op=False, group_src=None):
    g, w, me = _grp(group), _world(), current_rank()
    if group_src is not None:
        src = g.ranks(me)[group_src]

    def check(slot, ranks):
        for r in ranks:
            if slot["args"][r][0][1] != slot["args"][ranks[0]][0][1] or slot["args"][r][1][0].shape != slot["args"][ranks[0]][1][0].shape:
                return "broadcast mismatch"
        return None

    def move(slot, ranks):
        tensor.copy_(slot["snap"][src][0])

    return w.collective(g, "broadcast", [_desc(tensor), src], [tensor], [tensor], move, check, async_op)


def barrier(group=None, async_op=False, device_ids=None):
    g, w = _grp(group), _world()
    return w.collective(g, "barrier", [], [], [], lambda s, r: None, lambda s, r: None, async_op)


def isend(tensor, dst=None, group=None, tag=0, group_dst=None):
    g = _grp(group)
    if group_dst is not None:
        dst = g.ranks(current_rank())[group_dst]
    wk = _world().post_p2p("send", tensor, dst, group, tag)
    _world().yield_point()
    return wk


def irecv(tensor, src=None, group=None, tag=0, group_src=None):
    g = _grp(group)
    if group_src is not None:
        src = g.ranks(current_rank())[group_src]
    wk = _world().post_p2p("recv", tensor, src, group, tag)
    _world().yield_point()
    return wk


def send(tensor, dst=None, group=None, tag=0, group_dst=None):
    isend(tensor, dst, group, tag, group_dst).wait()


def recv(tensor, src=None, group=None, tag=0, group_src=None):
    irecv(tensor, src, group, tag, group_src).wait()
    return src


class P2POp:
    def __init__(self, op, tensor, peer=None, group=None, tag=0, group_peer=None):
        self.op, self.tensor, self.group, self.tag = op, tensor, group, tag
        self.peer = peer if group_peer is None else group.ranks(current_rank())[group_peer]


def batch_isend_irecv(p2p_op_list):
    w = _world()
    works = []
    for p in p2p_op_list:
        kind = "send" if p.op is isend else "recv"
        works.append(w.post_p2p(kind, p.tensor, p.peer, p.group, p.tag))
    w.yield_point()
    return works


DESTROYED = []


def destroy_process_group(group=None):
    DESTROYED.append(group)
    if group is not None:
        group.destroyed += 1
        if group.destroyed > 1:
            raise ValueError("Invalid process group specified")


def new_group(ranks=None, **kw):
    rs = tuple(ranks)
    return SimGroup("g" + "_".join(map(str, rs)), lambda r: rs)


_NAMES = [
    "get_world_size", "get_rank", "get_process_group_ranks", "get_global_rank", "get_group_rank", "all_gather", "all_to_all", "all_to_all_single",
    "all_reduce", "reduce_scatter", "reduce_scatter_tensor", "all_gather_into_tensor", "broadcast", "barrier", "isend", "irecv", "send", "recv",
    "P2POp", "batch_isend_irecv", "destroy_process_group", "new_group",
]


def install():
    import torch.distributed.distributed_c10d as c10d

    me = sys.modules[__name__]
    for n in _NAMES:
        setattr(dist, n, getattr(me, n))
        if hasattr(c10d, n):
            setattr(c10d, n, getattr(me, n))
    dist.is_initialized = c10d.is_initialized = lambda: True
    dist.is_available = lambda: True


def run_grid(npol, naz, fn, policy=None, seed=0, keep_log=False, polar=True, azimuth=True, init=True):
    """run fn(rank, polar_index, azimuth_index) on an npol x naz grid with torch_harmonics groups registered"""
    import torch_harmonics.distributed as thd

    pol, az = grid_groups(npol, naz)
    if init:
        thd.init(pol if polar else None, az if azimuth else None)
    w = World(npol * naz, policy=policy, seed=seed, keep_log=keep_log)
    try:
        res = w.run(lambda r: fn(r, r // naz, r % naz))
    finally:
        if init:
            thd.init(None, None)
            thd.finalize()
    return w, res
