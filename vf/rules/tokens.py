"""The table of tokens."""
import os
import tomllib
from .lib import *
from ..run import prop

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
REPO = os.environ.get("VF_REPO", "/repo")


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, "big")


def table(W):
    """the compiled table: [(mint, decimals, price exponent, price account, min, max)]"""
    l = [c[4] for c in W.P.consts if c[0] == "elusiv_types::TOKENS"]
    if len(l) != 1 or l[0][0] != "arr":
        return None
    out = []
    for t in l[0][1]:
        f = {k: v for k, v in t[3]}
        pk = lambda x: bytes.fromhex(x[3][0][1][1])
        out.append((pk(f["mint"]), int(f["decimals"][1]), int(f["price_base_exp"][1]), pk(f["pyth_usd_price_key"]), int(f["min"][1]), int(f["max"][1])))
    return out


@prop("F12", ("elusiv", "warden", "elusiv_mainnet", "warden_mainnet"), "every entry of the token table compiled into both programs, test and mainnet builds")
def f12(R, *worlds):
    """The token table in the compiled constants of all four builds is compared entry by entry with the list of supported tokens (mint, precision, price account, limits, in order), and for being unambiguous: no mint or price account stands for two tokens, the limits leave room, prices scale to the native token's base unit."""
    src = tomllib.load(open(os.path.join(REPO, "shared", "elusiv-types", "Token.toml"), "rb"))["token"]
    for W, where in zip(worlds, ("payment program", "warden network", "payment program, mainnet", "warden network, mainnet")):
        T = table(W)
        if not R.need(T is not None, "table", where, "the program has a table of tokens", ""):
            continue
        R.need(len(T) == len(src), "table", where, "the table has an entry for every supported token", "", "%d of %d" % (len(T), len(src)))
        n = [c[4] for c in W.P.consts if c[0] == "elusiv_types::SPL_TOKEN_COUNT"]
        R.need(all(int(x[1]) == len(T) - 1 for x in n), "table", where, "the largest token id is the table's last", "")
        for i, (have, t) in enumerate(zip(T, src)):
            R.count("entries")
            want = (b58(t["mint"]), t.get("decimals", 0), t.get("price_base_exp", 0), b58(t["pyth_usd_price_mainnet"]), t["min"], t["max"])
            for k, what in enumerate(("mint", "precision", "price exponent", "price account", "lower limit", "upper limit")):
                R.need(have[k] == want[k], "entry", "%s, %s" % (where, t["symbol"]), "the token's %s is the one listed" % what, "shared/elusiv-types/Token.toml", "%s, listed %s" % (have[k], want[k]))
            R.need(t["active"] is True, "entry", "%s, %s" % (where, t["symbol"]), "only active tokens are accepted", "shared/elusiv-types/Token.toml")
            R.need(0 < have[4] <= have[5] < 1 << 63, "limits", "%s, %s" % (where, t["symbol"]), "the limits leave room and fit the price arithmetic", "")
            R.need((have[2] == 9 and have[1] == 0) if i == 0 else have[2] == 0, "scale", "%s, %s" % (where, t["symbol"]), "only the native price is scaled to its base unit", "")
        for k, what in ((0, "mint"), (3, "price account")):
            R.need(len({t[k] for t in T}) == len(T), "distinct", where, "no %s stands for two tokens" % what, "")
    R.floor("entries", 4 * 12)
