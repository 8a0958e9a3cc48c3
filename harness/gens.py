"""Shared Hypothesis strategies (all produce plain data)."""
from hypothesis import strategies as st

_FRAGS = ["_x", "_X", "_", "x", "X", "_x005F_", "_X005F_", "_x000A_", "_xD83D__xDE00_", "_xZZZZ_", "_x00e9_", "__x0041__",
          "\n", "\r", "\t", "\x00", "\x1f", "\x7f", "\x85", "\x9f", "\xa0", "\ufffe", "\uffff", "\ufeff", "\ufdd0", "\U0001f600", "\U0010ffff", "\U0001fffe",
          "\U00010000", "\ue000", "\ud7ff", "0041", "_x0041", "x0041_", "<", ">", "&", "'", '"', "]]>", " ", "&#10;", "$", "`", "%", "\\",
          "\u5f00", "\u7830", "\u3030", "\u3000", "\u4e00\u5f00\u7830\u3030\u3030\u3030\u3000\u5f00", "\u005f", "\u0078", "caf\xe9", "\u2028", "A", "z"]
SCALAR = st.characters(exclude_categories=["Cs"])


def text(max_size=40):
    """Any string of Unicode scalar values, biased to what escaping gets wrong."""
    frag = st.one_of(st.sampled_from(_FRAGS), SCALAR, st.characters(max_codepoint=0x9F, exclude_categories=["Cs"]))
    return st.one_of(
        st.lists(frag, max_size=max(2, max_size // 3)).map("".join),
        st.text(SCALAR, max_size=max_size),
        st.text(st.sampled_from("_xX0159AaFf\u5f00\u7830\u3030"), max_size=max_size),
        st.sampled_from(["", " ", "  lead", "trail  ", "a\nb", "_x000A_"]),
    )


def long(s, times=300):
    """rarely: the same text many times over, with another one behind it"""
    return choose(*([s] * 11 + [st.tuples(s, st.integers(2, times), s).map(lambda t: t[0] * t[1] + t[2])]))


def name(max_size=12):
    return st.text(st.sampled_from("abcdefgXYZ_0123-. "), min_size=1, max_size=max_size)


def ident(max_size=10):
    return st.text(st.sampled_from("abcdefghijklmnopqrstuvwxyzABCDEFGHXYZ0123456789"), min_size=1, max_size=max_size)


uuid_str = st.uuids().map(lambda u: str(u))


def choose(*strategies):
    """one_of with equal weight per argument (one_of flattens nested choices, which drowns the rare ones)"""
    strategies = list(strategies)
    return st.sampled_from(range(len(strategies))).flatmap(lambda i: strategies[i])


# characters XML 1.0 cannot hold
_BAD = {c: None for c in list(range(0x00, 0x20)) + [0xFFFE, 0xFFFF] if c not in (9, 10, 13)}


def xtext(max_size=20):
    """Text an XML document can hold."""
    return text(max_size).map(lambda s: s.translate(_BAD))
