"""A stand-in RPC node that serves fixed accounts and records transactions, and
helpers to run the client against it.  Everything it writes is in a scratch
directory."""
import base64, hashlib, http.server, json, os, shutil, struct, subprocess, sys, tempfile, threading

A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(b):
    n, s = int.from_bytes(b, "big"), ""
    while n:
        n, r = divmod(n, 58)
        s = A[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def unb58(s):
    n = 0
    for c in s:
        n = n * 58 + A.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return b"\0" * (len(s) - len(s.lstrip("1"))) + b


def key(n):
    return hashlib.sha256(b"key %d" % n).digest()


SLASHING = "S1ashing11111111111111111111111111111111111"
RECORD = "recr1L3PCGKLbckBqMNcJhuuyU1zgo8nBhfLVsJNwr5"
RENT = "SysvarRent111111111111111111111111111111111"
SYSTEM = "1" * 32


def report(reporter, destination, epoch, node, slot, proof=b""):
    return (b"\1" + reporter + destination + struct.pack("<Q", epoch) + node
            + struct.pack("<Q", slot) + b"\1" + proof)


def pack(a, b):
    return struct.pack("<I", len(a)) + a + struct.pack("<I", len(b)) + b


class Ix:
    def __init__(self, program, accounts, data):
        self.program, self.accounts, self.data = program, accounts, data


def parse_tx(raw):
    def short(i):
        n = s = 0
        while True:
            n |= (raw[i] & 127) << s
            s += 7
            i += 1
            if raw[i - 1] < 128:
                return n, i
    n, i = short(0)
    sig, i = raw[i:i + 64], i + 64 * n
    i += 3
    n, i = short(i)
    keys = [b58(raw[i + 32 * j:i + 32 * j + 32]) for j in range(n)]
    i += 32 * n + 32
    n, i = short(i)
    ixs = []
    for _ in range(n):
        p, i = raw[i], i + 1
        k, i = short(i)
        acc, i = [keys[x] for x in raw[i:i + k]], i + k
        k, i = short(i)
        ixs.append(Ix(keys[p], acc, raw[i:i + k]))
        i += k
    return sig, keys, ixs


class Node:
    def __init__(self):
        self.accounts = {}      # address -> (lamports, owner, data)
        self.epoch = 10
        self.slot = 10 * 432000
        self.leader = b58(key(1))
        self.sent = []          # lists of instructions
        self.keys = []
        self.simulated = []
        self.refuse = lambda ixs: False
        self.n = 0
        node = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_POST(self):
                q = json.loads(self.rfile.read(int(self.headers["content-length"])))
                try:
                    r = {"result": node.call(q["method"], q.get("params") or [])}
                except Exception as e:
                    r = {"error": {"code": -32002, "message": str(e)}}
                out = json.dumps({"jsonrpc": "2.0", "id": q["id"], **r}).encode()
                self.send_response(200)
                self.send_header("content-type", "application/json")
                self.send_header("content-length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)

            def log_message(self, *a):
                pass

        self.server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.server.daemon_threads = True
        threading.Thread(target=self.server.serve_forever, daemon=True).start()
        self.url = "http://127.0.0.1:%d" % self.server.server_address[1]

    def account(self, k):
        if k == RENT:
            return 1009200, "Sysvar1111111111111111111111111111111111111", struct.pack("<QdB", 3480, 2.0, 50)
        return self.accounts.get(k)

    def show(self, a):
        if a is None:
            return None
        return {"lamports": a[0], "owner": a[1], "executable": False, "rentEpoch": 0,
                "space": len(a[2]), "data": [base64.b64encode(a[2]).decode(), "base64"]}

    def call(self, m, p):
        ctx = lambda v: {"context": {"slot": 1, "apiVersion": "2.3.5"}, "value": v}
        if m == "getVersion":
            return {"solana-core": "2.3.5", "feature-set": 1}
        if m in ("getSlot", "getBlockHeight"):
            return self.slot
        if m == "getEpochInfo":
            return {"absoluteSlot": self.slot, "blockHeight": self.slot, "epoch": self.epoch,
                    "slotIndex": 0, "slotsInEpoch": 432000, "transactionCount": 1}
        if m == "getLatestBlockhash":
            self.n += 1
            return ctx({"blockhash": b58(key(10**6 + self.n)), "lastValidBlockHeight": self.slot + 150})
        if m == "isBlockhashValid":
            return ctx(True)
        if m == "getAccountInfo":
            return ctx(self.show(self.account(p[0])))
        if m == "getMultipleAccounts":
            return ctx([self.show(self.account(k)) for k in p[0]])
        if m == "getBalance":
            return ctx((self.account(p[0]) or (0,))[0])
        if m == "getMinimumBalanceForRentExemption":
            return (128 + p[0]) * 6960
        if m == "getSlotLeaders":
            return [self.leader] * p[1]
        if m == "getProgramAccounts":
            out = []
            for k, a in self.accounts.items():
                keep = a[1] == p[0]
                for f in (p[1] if len(p) > 1 else {}).get("filters") or []:
                    if "dataSize" in f:
                        keep = keep and len(a[2]) == f["dataSize"]
                    elif "memcmp" in f:
                        c = f["memcmp"]
                        b = c["bytes"]
                        b = bytes(b) if isinstance(b, list) else base64.b64decode(b) if c.get("encoding") == "base64" else unb58(b)
                        keep = keep and a[2][c["offset"]:c["offset"] + len(b)] == b
                if keep:
                    out.append({"pubkey": k, "account": self.show(a)})
            return ctx(out) if len(p) > 1 and p[1].get("withContext") else out
        if m in ("sendTransaction", "simulateTransaction"):
            enc = p[1].get("encoding")
            sig, keys, ixs = parse_tx(base64.b64decode(p[0]) if enc == "base64" else unb58(p[0]))
            if m == "simulateTransaction":
                self.simulated.append(ixs)
                return ctx({"err": None, "logs": [], "accounts": None, "unitsConsumed": 1,
                            "returnData": None, "innerInstructions": None, "replacementBlockhash": None})
            self.sent.append(ixs)
            self.keys.append(keys)
            if self.refuse(ixs):
                raise Exception("refused")
            for i in ixs:
                if i.program == SLASHING and i.data[0] == 1:
                    d = i.data
                    self.accounts[i.accounts[1]] = (10**7, SLASHING, report(
                        d[49:81], d[81:113], self.epoch, d[17:49], struct.unpack("<Q", d[9:17])[0]))
            return b58(sig)
        if m == "getSignatureStatuses":
            return ctx([{"slot": 1, "confirmations": None, "confirmationStatus": "finalized",
                         "status": {"Ok": None}, "err": None} for _ in p[0]])
        raise Exception("unknown method " + m)

    def of(self, program, kind=None, where=None):
        return [i for ixs in (self.sent if where is None else where) for i in ixs
                if i.program == program and (kind is None or i.data[0] == kind)]


class Scratch:
    """A scratch directory with a keypair, a configuration and the node."""

    def __init__(self, node):
        self.dir = tempfile.mkdtemp()
        self.node = node
        self.signer = bytes.fromhex("8a88e3dd7409f195fd52db2d3cba5d72ca6709bf1d94121bf3748801b40f6f5c")
        pair = bytes([1] * 32) + self.signer     # the RFC 8032 pair of seed 0101..
        json.dump(list(pair), open(self.dir + "/id.json", "w"))
        open(self.dir + "/config.yml", "w").write(
            "---\njson_rpc_url: %s\nwebsocket_url: ''\nkeypair_path: %s/id.json\naddress_labels: {}\ncommitment: confirmed\n"
            % (node.url, self.dir))

    def client(self, *args):
        env = {"HOME": self.dir, "PATH": "/usr/bin:/bin"}
        if os.path.exists(self.dir + "/nofile.so"):
            env["LD_PRELOAD"] = self.dir + "/nofile.so"
        r = subprocess.run(["/repo/target/debug/spl-slashing", "-C", self.dir + "/config.yml", *args], env=env,
                           cwd=self.dir, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=120)
        print("$ spl-slashing", *args, "->", r.returncode)
        print(r.stdout[-2000:], r.stderr[-2000:])
        return r

    def ledger(self, *slots, odd=()):
        """A ledger with a duplicate proof for each slot; returns {slot: (shred, shred)}."""
        here = os.path.dirname(os.path.abspath(__file__))
        subprocess.run(["gcc", "-shared", "-fPIC", "-o", self.dir + "/nofile.so", here + "/nofile.c"], check=True)
        src = self.dir + "/src"
        os.makedirs(src + "/clients")
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy("/repo/" + f, src)
        shutil.copytree("/repo/program", src + "/program")
        shutil.copytree("/repo/clients/cli", src + "/clients/cli", ignore=shutil.ignore_patterns("target"))
        os.makedirs(src + "/clients/cli/examples", exist_ok=True)
        shutil.copy(here + "/mkledger.rs", src + "/clients/cli/examples/mkledger.rs")
        env = {"HOME": "/root", "PATH": "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin", "RUSTUP_TOOLCHAIN": "1.86.0",
               "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
               "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_TARGET_DIR": "/repo/target"}
        keep = self.dir + "/client.keep"
        shutil.copy2("/repo/target/debug/spl-slashing", keep)
        b = subprocess.run(["cargo", "build", "--workspace", "--features", "solana-slashing-program/test-sbf", "--offline",
                            "--bin", "spl-slashing", "--example", "mkledger"], cwd=src, env=env, capture_output=True, text=True)
        if b.returncode:
            print(b.stderr[-3000:])
            sys.exit(2)
        out = subprocess.run(["/repo/target/debug/examples/mkledger", self.dir + "/ledger", *map(str, slots)],
                             capture_output=True, text=True, check=True).stdout
        shutil.rmtree(src)
        got = {}
        for line in out.splitlines():
            if line.startswith("slot "):
                _, s, a, b = line.split()
                got[int(s)] = (bytes.fromhex(a), bytes.fromhex(b))
        assert sorted(got) == sorted(slots), out
        return got

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run(demo):
    node = Node()
    s = Scratch(node)
    try:
        demo(node, s)
        print("demonstration passed")
    finally:
        s.done()
