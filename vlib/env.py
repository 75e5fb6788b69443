"""The library under test, loaded into this process."""

import ctypes
import os
import sys


class Rng:
    """The seam into the library's random generator (see build.py)."""

    def __init__(self, active):
        self.active = active
        self.block = (ctypes.c_uint64 * 528)()
        if active:
            os.environ["GUFO_VERIF_RNG"] = str(ctypes.addressof(self.block))

    def seed(self, s, u32=(), u64=()):
        b = self.block
        b[0] = 1
        b[1] = s & 0xFFFFFFFFFFFFFFFF
        b[2], b[3] = len(u32), 0
        b[4], b[5] = len(u64), 0
        for i, x in enumerate(u32[:256]):
            b[16 + i] = x & 0xFFFFFFFF
        for i, x in enumerate(u64[:256]):
            b[272 + i] = x & 0xFFFFFFFFFFFFFFFF

    @property
    def calls(self):
        return self.block[6]


class Shim:
    """Makes sends fail (see shim.c); does nothing when it is not there."""

    def __init__(self):
        try:
            self.so = ctypes.CDLL(None)
            self.so.shim_arm
        except AttributeError:
            self.so = None

    def arm(self, n, err):
        if self.so:
            self.so.shim_arm(n, err)

    def disarm(self):
        """How many sends have failed."""
        if not self.so:
            return 0
        n = self.so.shim_fired()
        self.so.shim_arm(0, 0)
        return n


class Lib:
    def __init__(self, pkg, seam):
        self.shim = Shim()
        self.rng = Rng(seam)
        sys.dont_write_bytecode = True
        sys.path.insert(0, pkg)
        import gufo.snmp._fast as fast
        import gufo.snmp as top
        import gufo.snmp.user as user
        from gufo.snmp.async_client import SnmpSession as AsyncSession
        from gufo.snmp.policer import BasePolicer, RPSPolicer
        from gufo.snmp.sync_client import SnmpSession as SyncSession
        from gufo.snmp.version import SnmpVersion

        if not fast.__file__.startswith(pkg):
            raise RuntimeError(f"wrong extension: {fast.__file__}")
        self.fast = fast
        self.top = top
        self.user = user
        self.SyncSession = SyncSession
        self.AsyncSession = AsyncSession
        self.BasePolicer = BasePolicer
        self.RPSPolicer = RPSPolicer
        self.SnmpVersion = SnmpVersion
        self.SnmpError = fast.SnmpError
        self.SnmpDecodeError = fast.SnmpDecodeError
        self.SnmpEncodeError = fast.SnmpEncodeError
        self.SnmpAuthError = fast.SnmpAuthError
        self.NoSuchInstance = fast.NoSuchInstance
