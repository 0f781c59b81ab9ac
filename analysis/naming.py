"""The documented naming of generated items."""
RESERVED = set("as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return "
               "Self self static struct super trait true type union unsafe use where while "
               "abstract become box do final macro override priv typeof unsized virtual yield try".split())


def field_name(n):
    return n + "_v" if n in RESERVED else n


def type_name(n):
    return n


def member_name(n):
    return n


def variant_name(l):
    l = str(l)
    if l[:1].isdigit():
        return "v_" + l
    return l + "_v" if l in RESERVED else l
