"""One interface over the three ways of using the library.

api 'raw'   - the extension's socket class, non-blocking, single threaded
api 'sync'  - gufo.snmp.sync_client.SnmpSession, the agent in a thread
api 'async' - gufo.snmp.async_client.SnmpSession, the agent on the same loop

`handler(agent, datagram) -> [datagrams]` scripts the agent.  Each call
returns ('ok', value), ('exc', exception) or ('wait', None): the latter means
that the library kept waiting after everything had been delivered.
"""

import asyncio
import select
import threading
import time

from . import snmp
from .runner import Violation
from .snmp import Agent, Harness, make_sock, ready

_loop = None
# How long the raw driver waits for more datagrams after the library has said
# "nothing (more) here".  Raised when a soft alarm is being confirmed.
PATIENCE = 0.0


def loop():
    global _loop
    if _loop is None:
        _loop = asyncio.new_event_loop()
        # a cancelled call may leave a reader behind for a moment
        _loop.set_exception_handler(lambda *a: None)
    return _loop


class AgentThread:
    """One long-lived thread serving the agent socket of the current case."""

    def __init__(self):
        self.cmd, self.cmd_w = __import__("os").pipe()
        self.lock = threading.Lock()
        self.cur = None
        self.idle = threading.Event()
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        import os

        while True:
            cur = self.cur
            fds = [self.cmd] + ([cur.agent.sock.fileno()] if cur else [])
            r, _, _ = select.select(fds, [], [])
            if self.cmd in r:
                os.read(self.cmd, 64)
                self.idle.set()
                continue
            try:
                data, cur.agent.client = cur.agent.sock.recvfrom(65536)
            except OSError:
                continue
            cur.serve(data)

    def switch(self, drv):
        import os

        self.idle.clear()
        self.cur = drv
        os.write(self.cmd_w, b"x")
        self.idle.wait()


_agent_thread = None


def agent_thread():
    global _agent_thread
    if _agent_thread is None:
        _agent_thread = AgentThread()
    return _agent_thread


class Driver:
    def __init__(self, lib, conf, api, handler, boots=0, time=0, timeout=5.0, agent_engine=None, **kw):
        self.lib = lib
        self.api = api
        self.conf = conf
        disc = kw.pop("discover", False)
        blank = kw.pop("blank", False)
        self.handler = handler
        self.agent = Agent(conf, boots, time, engine_id=agent_engine)
        self.error = None
        self.sent = 0
        self.held = None
        self.served = 0
        self.requests = []
        if api == "raw":
            if disc:
                # as the clients do it: keys are set once the engine is known
                self.sock = lib.fast.SnmpV3ClientSocket(f"{snmp.host(conf)}:{self.agent.port}", b"", "", 0, b"", 0, b"", *snmp.sock_opts(conf), 0)
            else:
                self.sock = make_sock(lib, conf, self.agent.port, engine_id=b"" if blank else None)
            self.max_rep = kw.get("max_repetitions", 20)
            self.allow_bulk = kw.get("allow_bulk", True) and conf["v"] != 1
        elif api == "sync":
            if disc:
                kw["engine_id"] = None
            self.session = snmp.sync_session(lib, conf, self.agent.port, timeout=timeout, **kw)
        else:

            if disc:
                kw["engine_id"] = None

            async def mk():
                return snmp.async_session(lib, conf, self.agent.port, timeout=timeout, **kw)

            lp = loop()
            self.agent.sock.setblocking(False)
            lp.add_reader(self.agent.sock.fileno(), self._readable)
            self.session = lp.run_until_complete(mk())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.api == "sync":
            if agent_thread().cur is self:
                agent_thread().switch(None)
        elif self.api == "async":
            loop().remove_reader(self.agent.sock.fileno())
        self.agent.close()

    # -- agent side
    def serve(self, data):
        self.requests.append(data)
        self.sent = 0
        try:
            for d in self.handler(self.agent, data):
                if self.held is None:
                    self.agent.send(d)
                else:
                    self.held.append(d)
                self.sent += 1
        except BaseException as e:  # noqa: BLE001
            if self.error is None:
                self.error = e
        self.served += 1

    def _readable(self):
        try:
            data, self.agent.client = self.agent.sock.recvfrom(65536)
        except BlockingIOError:
            return
        self.serve(data)

    def await_requests(self, n, limit=5.0):
        """Let the agent handle what has been sent, until its n-th request
        (a call may end before the agent has seen its request)."""
        end = time.monotonic() + limit
        while self.served < n and self.error is None and time.monotonic() < end:
            if self.api == "async":
                loop().run_until_complete(asyncio.sleep(0))
            elif self.api == "sync":
                time.sleep(0.0005)
            else:
                break
        self.finish(None)

    def activate(self):
        """Have the agent thread serve this session (sync only)."""
        if agent_thread().cur is not self:
            agent_thread().switch(self)

    def abandon(self, kind, oid):
        """Send a request and give up before its reply is there (raw and
        async only). The replies wait for release(), as otherwise it is left
        to the event loop, which of them the abandoned calls still see."""
        n = self.served
        if self.api == "raw":
            s = self.sock
            if kind == "get":
                s.send_get(oid)
            elif kind == "many":
                s.send_get_many([oid])
            elif kind == "refresh":
                s.send_refresh()
            elif kind == "next":
                s.send_get_next(self.lib.fast.GetIter(oid, None))
            else:
                s.send_get_bulk(self.lib.fast.GetIter(oid, self.max_rep))
            self.serve(self.agent.recv())
            return self.finish(None)
        s = self.session

        async def call():
            if kind == "get":
                await s.get(oid)
            elif kind == "many":
                await s.get_many([oid])
            elif kind == "refresh":
                await s.refresh()
            elif kind == "next":
                await anext(aiter(s.getnext(oid)))
            else:
                await anext(aiter(s.getbulk(oid)))

        async def go():
            t = asyncio.ensure_future(call())
            while self.served < n + 1 and self.error is None and not t.done():
                await asyncio.sleep(0)
            t.cancel()
            try:
                await t
            except asyncio.CancelledError:
                return True
            except Exception as e:  # noqa: BLE001
                raise Violation(f"abandoned {kind}: {type(e).__name__}: {e}") from e
            return False

        self.finish(None)
        if self.held is None:
            self.held = []
        done = loop().run_until_complete(go())
        self.finish(None)
        return done

    def release(self):
        """Deliver the replies to the abandoned requests."""
        held, self.held = self.held or [], None
        for d in held:
            self.agent.send(d)

    # -- calls
    def finish(self, r):
        if self.error is not None:
            e, self.error = self.error, None
            raise e
        return r

    def _raw(self, send, recv):
        try:
            send()
        except Exception as e:  # noqa: BLE001
            return "exc", e
        return self._raw_recv(recv)

    def _raw_recv(self, recv):
        self.serve(self.agent.recv())
        if self.error is not None:
            return "wait", None
        wait = 1.0 if self.sent else 0.0
        while ready(self.sock, wait):
            wait = PATIENCE
            try:
                return "ok", recv()
            except BlockingIOError:
                continue
            except Exception as e:  # noqa: BLE001
                return "exc", e
        return "wait", None

    def _run(self, fn):
        try:
            if self.api == "sync":
                self.activate()
                return "ok", fn()
            return "ok", loop().run_until_complete(fn())
        except TimeoutError as e:
            if "refused" in str(e):
                return "exc", e
            return "wait", None
        except Exception as e:  # noqa: BLE001
            return "exc", e

    def get(self, oid):
        if self.api == "raw":
            s = self.sock
            return self.finish(self._raw(lambda: s.send_get(oid), s.recv_get))
        return self.finish(self._run(lambda: self.session.get(oid)))

    def get_many(self, oids):
        if self.api == "raw":
            s = self.sock
            return self.finish(self._raw(lambda: s.send_get_many(list(oids)), s.recv_get_many))
        return self.finish(self._run(lambda: self.session.get_many(oids)))

    def discover(self):
        """Engine id discovery, and the refresh that follows it."""
        if self.api != "raw":
            return self.refresh()
        r = self.refresh()
        if r[0] != "ok":
            return r
        c = self.conf
        try:
            self.sock.set_keys(c["user"], snmp.code(c["aalg"], c["akt"]), c["akey"], snmp.code(c["palg"], c["pkt"]), c["pkey"])
        except Exception as e:  # noqa: BLE001
            return "exc", e
        return self.refresh()

    def enter(self):
        """Enter the session's context manager, which refreshes it (or
        discovers the engine)."""
        if self.api == "raw":
            return self.discover()
        s = self.session
        return self.finish(self._run(s.__enter__ if self.api == "sync" else s.__aenter__))

    def refresh(self):
        if self.api == "raw":
            s = self.sock
            return self.finish(self._raw(s.send_refresh, s.recv_refresh))
        return self.finish(self._run(self.session.refresh))

    def walk(self, kind, oid, limit, max_rep=None):
        """Iterate; returns (items, end) where end is 'stop', 'limit',
        'wait' or the exception."""
        items = []
        if self.api == "raw":
            bulk = kind == "bulk" or (kind == "fetch" and self.allow_bulk)
            try:
                it = self.lib.fast.GetIter(oid, (max_rep or self.max_rep) if bulk else None)
            except Exception as e:  # noqa: BLE001
                return items, e
            s = self.sock
            while len(items) < limit:
                if bulk:
                    k, v = self._raw(lambda: s.send_get_bulk(it), lambda: s.recv_get_bulk(it))
                else:
                    k, v = self._raw(lambda: s.send_get_next(it), lambda: s.recv_get_next(it))
                self.finish(None)
                if k == "exc":
                    if isinstance(v, StopAsyncIteration):
                        return items, "stop"
                    return items, v
                if k == "wait":
                    return items, "wait"
                if not bulk:
                    items.append(v)
                    continue
                if not v:
                    return items, "stop"
                for x in v:
                    if x is None:
                        return items, "stop"
                    items.append(x)
            return items, "limit"
        try:
            if kind == "next":
                it = self.session.getnext(oid)
            elif kind == "bulk":
                it = self.session.getbulk(oid, max_rep) if max_rep is not None else self.session.getbulk(oid)
            else:
                it = self.session.fetch(oid)
        except Exception as e:  # noqa: BLE001
            return items, e
        end = "limit"
        try:
            if self.api == "sync":
                self.activate()
                while len(items) < limit:
                    try:
                        items.append(next(it))
                    except StopIteration:
                        end = "stop"
                        break
            else:

                async def go():
                    while len(items) < limit:
                        try:
                            items.append(await it.__anext__())
                        except StopAsyncIteration:
                            return "stop"
                    return "limit"

                end = loop().run_until_complete(go())
        except TimeoutError:
            end = "wait"
        except Exception as e:  # noqa: BLE001
            end = e
        self.finish(None)
        return items, end


class Steps:
    """A walk taken one item at a time: step() gives ('item', (oid, value)),
    ('stop', None), ('wait', None) or ('exc', exception)."""

    def __init__(self, d, kind, oid, max_rep=None):
        self.d = d
        self.buf = []
        if d.api == "raw":
            self.bulk = kind == "bulk" or (kind == "fetch" and d.allow_bulk)
            self.it = d.lib.fast.GetIter(oid, (max_rep or d.max_rep) if self.bulk else None)
        elif kind == "next":
            self.it = d.session.getnext(oid)
        elif kind == "bulk":
            self.it = d.session.getbulk(oid, max_rep) if max_rep is not None else d.session.getbulk(oid)
        else:
            self.it = d.session.fetch(oid)
        if d.api != "raw":
            self.it = iter(self.it) if d.api == "sync" else aiter(self.it)

    def step(self):
        d = self.d
        if d.api == "raw":
            r = self._raw()
        else:
            try:
                if d.api == "sync":
                    d.activate()
                    r = "item", next(self.it)
                else:
                    r = loop().run_until_complete(self._anext())
            except StopIteration:
                r = "stop", None
            except TimeoutError:
                r = "wait", None
            except Exception as e:  # noqa: BLE001
                r = "exc", e
        d.finish(None)
        return r

    async def _anext(self):
        try:
            return "item", await self.it.__anext__()
        except StopAsyncIteration:
            return "stop", None

    def _raw(self):
        d, it, s = self.d, self.it, self.d.sock
        if self.buf:
            x = self.buf.pop(0)
            return ("stop", None) if x is None else ("item", x)
        if self.bulk:
            k, v = d._raw(lambda: s.send_get_bulk(it), lambda: s.recv_get_bulk(it))
        else:
            k, v = d._raw(lambda: s.send_get_next(it), lambda: s.recv_get_next(it))
        if k == "exc":
            return ("stop", None) if isinstance(v, StopAsyncIteration) else ("exc", v)
        if k == "wait":
            return "wait", None
        if not self.bulk:
            return "item", v
        if not v:
            return "stop", None
        self.buf = list(v)
        return self._raw()


def expect_ok(r, what):
    """The value of a call that must succeed."""
    k, v = r
    if k == "wait":
        raise Violation(f"{what}: the matching reply was not delivered", soft=True)
    if k == "exc":
        raise Violation(f"{what}: raised {type(v).__name__}: {v}")
    return v


__all__ = ["Driver", "expect_ok", "Harness", "Agent"]
