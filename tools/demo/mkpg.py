#!/usr/bin/env python3
"""Files of a PostgreSQL 16 cluster as pgBackRest sees them.  mkpg.py init DIR | wal DIR NAME SEED"""
import os, random, struct, sys

def crc32c(b):
    t = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ 0x82F63B78 if c & 1 else c >> 1
        t.append(c)
    c = 0xFFFFFFFF
    for x in b:
        c = t[(c ^ x) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF

SYSID = 0x6000000000001234
SEG = 1024 * 1024
CTL, CAT, MAGIC, CRC = 1300, 202307071, 0xD113, 288

def control():
    c = bytearray(8192)
    def u32(o, v): struct.pack_into("<I", c, o, v)
    def u64(o, v): struct.pack_into("<Q", c, o, v)
    u64(0, SYSID); u32(8, CTL); u32(12, CAT); u32(16, 1); u64(24, 1700000000); u64(32, 0x1000028); u64(40, 0x1000028); u32(48, 1)
    u32(216, 8192); u32(220, 131072); u32(224, 8192); u32(228, SEG); u32(252, 0)
    u32(CRC, crc32c(bytes(c[:CRC])))
    return bytes(c)

def wr(p, d):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(d)
    os.chmod(p, 0o600)

def page(seed, blk):
    r = random.Random(seed * 1000 + blk)
    return bytes(12) + b"\x20\x00\x00\x20\x00\x20\x04\x20" + bytes(r.randrange(256) for _ in range(256)) * 31 + bytes(8192 - 20 - 256 * 31)

def wal(seed, name, sysid=SYSID):
    d = bytearray(SEG)
    struct.pack_into("<HHIQ", d, 0, MAGIC, 2, int(name[:8], 16), (int(name[8:16], 16) << 32) + int(name[16:24], 16) * SEG)
    struct.pack_into("<QII", d, 24, sysid, SEG, 8192)
    r = random.Random(seed)
    d[64:64 + 20000] = bytes(r.randrange(256) for _ in range(20000))
    return bytes(d)

if sys.argv[1] == "init":
    d = sys.argv[2]
    for x in "base/1 base/16384 global pg_wal/archive_status pg_xact pg_tblspc pg_notify pg_stat pg_stat_tmp pg_subtrans pg_twophase pg_replslot pg_dynshmem pg_snapshots pg_serial pg_logical pg_multixact/members pg_multixact/offsets pg_commit_ts".split():
        os.makedirs(os.path.join(d, x), exist_ok=True)
    os.chmod(d, 0o700)
    wr(d + "/PG_VERSION", b"16\n"); wr(d + "/global/pg_control", control()); wr(d + "/postgresql.conf", b"# conf\n"); wr(d + "/base/1/PG_VERSION", b"16\n")
    wr(d + "/pg_xact/0000", bytes(8192))
    for k in range(int(sys.argv[3]) if len(sys.argv) > 3 else 4):
        wr(d + "/base/16384/%d" % (16390 + k), b"".join(page(k + 1, b) for b in range(3 + 9 * k)))
elif sys.argv[1] == "wal":
    wr(sys.argv[2] + "/pg_wal/" + sys.argv[3], wal(int(sys.argv[4]), sys.argv[3], SYSID + (int(sys.argv[5]) if len(sys.argv) > 5 else 0)))
