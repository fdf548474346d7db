"""A raw UCI client for the demonstration: no code of pica or of its bindings."""
import os, socket, struct, subprocess, sys, time, tempfile


class Pica:
    def __init__(self, binary="target/debug/pica", pcap=None):
        for _ in range(5):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            cmd = [os.path.join(os.getcwd(), binary), "--uci-port", str(self.port)]
            if pcap:
                cmd += ["--pcapng-dir", pcap]
            self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                      env=dict(os.environ, RUST_LOG="off"))
            for _ in range(200):
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    time.sleep(0.2)
                    return
                except OSError:
                    time.sleep(0.05)
            self.p.kill()
        raise SystemExit("cannot start pica")

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        self.p.kill()
        self.p.wait()


class Host:
    def __init__(self, pica):
        self.s = socket.create_connection(("127.0.0.1", pica.port), 5)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.ntf = []

    def raw(self, b):
        self.s.sendall(b)

    def packet(self, timeout=3.0):
        """The next packet, or None."""
        end = time.time() + timeout
        while True:
            if len(self.buf) >= 4:
                n = struct.unpack("<H", self.buf[2:4])[0] if self.buf[0] >> 5 == 0 else self.buf[3]
                if len(self.buf) >= 4 + n:
                    p, self.buf = self.buf[:4 + n], self.buf[4 + n:]
                    return p
            left = end - time.time()
            if left <= 0:
                return None
            self.s.settimeout(left)
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                return None
            except OSError:
                return None
            if not d:
                return None
            self.buf += d

    def cmd(self, gid, oid, payload=b"", timeout=3.0):
        """Send a command; the payload of its response, or None."""
        self.raw(bytes([0x20 | gid, oid, 0, len(payload)]) + payload)
        end = time.time() + timeout
        while time.time() < end:
            p = self.packet(end - time.time())
            if p is None:
                return None
            if p[0] >> 5 == 2:
                return p[4:] if (p[0] & 15, p[1]) == (gid, oid) else None
            self.ntf.append(p)
        return None

    def drain(self, seconds=0.3):
        """The packets of the given time that are not responses."""
        end = time.time() + seconds
        while time.time() < end:
            p = self.packet(end - time.time())
            if p is None:
                break
            self.ntf.append(p)
        r, self.ntf = self.ntf, []
        return r

    def reset(self):
        r = self.cmd(0, 0, b"\0")
        assert r == b"\0", r
        self.drain(0.1)

    def init(self, sid, typ=1):
        return self.cmd(1, 0, struct.pack("<IB", sid, typ))

    def deinit(self, sid):
        return self.cmd(1, 1, struct.pack("<I", sid))

    def set_app(self, sid, tlvs):
        b = struct.pack("<IB", sid, len(tlvs))
        for t, v in tlvs:
            b += bytes([t, len(v)]) + v
        return self.cmd(1, 3, b)

    def get_app(self, sid, ids):
        """(status, {id: value})"""
        r = self.cmd(1, 4, struct.pack("<IB", sid, len(ids)) + bytes(ids))
        if r is None:
            return None, {}
        out, i = {}, 2
        while i < len(r):
            out[r[i]] = r[i + 2:i + 2 + r[i + 1]]
            i += 2 + r[i + 1]
        return r[0], out

    def count(self):
        return self.cmd(1, 5)

    def state(self, sid):
        """(status, state)"""
        return self.cmd(1, 6, struct.pack("<I", sid))

    def start(self, sid):
        return self.cmd(2, 0, struct.pack("<I", sid))

    def stop(self, sid):
        return self.cmd(2, 1, struct.pack("<I", sid))

    def device_state(self):
        r = self.cmd(0, 4, b"\1\0")
        return r[-1] if r else None

    def multicast(self, sid, action, addrs):
        b = struct.pack("<IBB", sid, action, len(addrs))
        for a, sub in addrs:
            b += a + struct.pack("<I", sub)
        return self.cmd(1, 7, b)


# ids: 0 device type, 1 ranging round usage, 3 multi node mode, 5 number of controlees,
# 6 device address, 7 destination addresses, 9 ranging duration, 17 device role, 34 schedule mode
def app(addr, peer, controller, n=None, mode=0, duration=None):
    t = [(0x11, bytes([1 if controller else 0])), (0x00, bytes([1 if controller else 0])), (0x03, b"\1"), (0x01, b"\1"),
         (0x22, b"\1")]
    if mode:
        t.append((0x26, bytes([mode])))
    t += [(0x06, addr), (0x05, bytes([len(peer) if n is None else n])), (0x07, b"".join(peer))]
    if duration is not None:
        t.append((0x09, struct.pack("<I", duration)))
    return t


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        raise SystemExit(1)
