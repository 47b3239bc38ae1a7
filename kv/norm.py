"""What a round trip may legitimately not preserve: settings that have no effect in combination
with the rest of the line (a passphrase without --encrypted, a port without a host...).  Each rule
blanks exactly those attributes; everything else must survive."""
from . import model as M

CRYPTO = ("passphrase", "escrowcert", "backuppassphrase", "cipher", "luks_version", "pbkdf", "pbkdf_memory",
          "pbkdf_time", "pbkdf_iterations")


def blank(d, *keys):
    for k in keys:
        if k in d:
            d[k] = None


def crypto(d):
    if "encrypted" in d:
        if not d["encrypted"]:
            blank(d, *CRYPTO)
        elif not d.get("escrowcert"):
            blank(d, "backuppassphrase")


def attrs(sp, a):
    s = sp.suffix
    a = dict(a)
    crypto(a)
    if s == "ClearPart":
        if a["type"] is None or a["type"] == -1:
            return {"type": a["type"]}
    elif s in ("Bootloader", "Lilo"):
        if a.get("disabled") and sp.has("F18", "RHEL7"):
            return {"disabled": True}
        if not a.get("password"):
            blank(a, "isCrypted", "md5pass")
        blank(a, "linear") if not a.get("linear", True) else None
    elif s == "Firewall":
        if a.get("use_system_defaults"):
            return {"use_system_defaults": True}
        if a.get("enabled") is False:
            return {"enabled": False}
        if a.get("trusts"):
            a["trusts"] = ",".join(a["trusts"]).split(",")
    elif s in ("Upgrade", "Install"):
        if not a.get("upgrade"):
            blank(a, "root_device")
    elif s == "Keyboard" and sp.has("F18"):
        if a.get("vc_keymap") or a.get("x_layouts"):
            blank(a, "_keyboard")
            blank(a, "keyboard")
        if not a.get("x_layouts"):
            blank(a, "switch_options")
    elif s == "Reboot":
        if M.const("KS_REBOOT") != a.get("action") and not sp.has("F18"):
            blank(a, "eject")
    elif s == "RootPw":
        if not a.get("password"):
            blank(a, "isCrypted")
    elif s == "Vnc":
        if not a.get("host"):
            blank(a, "port")
    elif s == "Timezone":
        if not a.get("timezone"):
            blank(a, "timezone")
        if "ntpservers" in a and not sp.has("F23"):
            a["ntpservers"] = list(a["ntpservers"])
    elif s == "AutoPart":
        pass
    return a


def data(sp, d):
    s = sp.suffix
    d = dict(d)
    crypto(d)
    if s == "LogVol":
        if not d.get("thin_volume"):
            blank(d, "pool_name")
    elif s == "BTRFS":
        if not d.get("subvol"):
            blank(d, "name")
    elif s == "DriverDisk":
        if not d.get("partition"):
            blank(d, "type")
    elif s == "Nvdimm":
        if d.get("action") != M.const("NVDIMM_ACTION_RECONFIGURE"):
            blank(d, "mode", "sectorsize")
    elif s == "Repo":
        if not d.get("ignoregroups"):
            blank(d, "ignoregroups")
    elif s == "SshPw":
        if d.get("sshkey"):
            blank(d, "isCrypted", "lock")
    return d


def snap(snapshot, version, cmds):
    """Normalise a whole snapshot (as made by real.snapshot)."""
    out = {}
    for cmd in cmds:
        sp = M.spec(version, cmd)
        if sp.cls not in snapshot:
            continue
        e = snapshot[sp.cls]
        n = {"attrs": attrs(sp, e["attrs"])}
        if "data" in e:
            n["data"] = [data(sp, x) for x in e["data"]]
        out[sp.cls] = n
    return out
