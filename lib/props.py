"""What is run for each property."""
import vf
from vf import Entry, Crate, Broken

LEVEL = {}
ASCII = "every text of %s characters over the alphabet %s"
A = dict(core="{i,f,=,7,space,newline,;}", ambig="{a,b,c,space,d}", comments="{/,*,a,newline,CR}", lits="{a,b,c,d,x}", alts="{a,b,c,x,y,z,w}",
         skip_seq="{b,3,space,newline,z,y,a}", lines="{b,x,space,CR,newline,!}", skip_lines="{b,space,CR,newline,!}",
         wide="{a,é,ê,β,À,→,😀,space,newline,!}")


def t(name, lens, need=(), **k):
    cfg = name.split("_", 1)[1]
    cfg = cfg[:-2] if cfg.endswith("_t") else cfg
    return Entry("lex", name, "lexicon '%s': " % cfg + ASCII % (lens, A[cfg]), need, **k)


def u(name, n, need=()):
    return Entry("lex", name, "lexicon 'wide': every well-formed UTF-8 text of exactly %d bytes" % n, need)


LEX = {
    "C01": dict(
        quick=[t("c01_core", "0..=4", (1, 2, 3)), t("c01_ambig", "0..=4", (1, 2, 3)), t("c01_comments", "0..=5", (1, 2, 3)), t("c01_lits", "0..=5", (1, 2, 3)),
               t("c01_alts", "0..=4", (1, 2, 3)), t("c01_skip_seq", "0..=4", (1, 2, 3)), t("c01_wide", "0..=3", (1, 2, 3)), u("c01_utf8_2", 2, (1, 2, 3)), u("c01_utf8_3", 3, (1, 2, 3)),
               Entry("lex", "c01_symlits", "any two different literals of 1..=2 characters over {a,b}, any text of 1..=4 characters over {a,b,c}", (2, 3))],
        thorough=[Entry("lex", "c01_symlits_t", "any two different literals of 1..=3 characters over {a,b}, the pattern a[ab], any text of 1..=4 characters over {a,b,c}", (2, 3)), t("c01_core_t", "0..=5", (1, 2, 3)), t("c01_ambig_t", "0..=6", (1, 2, 3)), t("c01_comments_t", "0..=6", (1, 2, 3)), t("c01_lits_t", "0..=7", (1, 2, 3)),
                  t("c01_alts_t", "0..=5", (1, 2, 3)), t("c01_skip_seq_t", "0..=6", (1, 2, 3)), t("c01_wide_t", "0..=4", (1, 2, 3)), u("c01_utf8_3", 3, (1, 2, 3)), u("c01_utf8_4", 4, (1, 2, 3))]),
    "C02": dict(
        quick=[t("c02_core", "1..=4", (1, 3)), t("c02_ambig", "1..=4", (1, 2, 3)), t("c02_comments", "1..=5", (1,)), t("c02_lits", "1..=5", (1, 3)), t("c02_alts", "1..=4", (1, 3)),
               t("c02_wide", "1..=3", (1, 3)),
               Entry("lex", "c02_symlits", "any three different literals of 1..=2 characters over {a,b}, any text of 1..=3 characters over {a,b,c}", (1, 3)),
               Entry("lex", "c02_symlits_re", "any three different literals of 1..=2 characters over {a,b}, the pattern a[ab], any text of 1..=2 characters over {a,b,c}", (1, 3))],
        thorough=[t("c02_core_t", "1..=5", (1, 3)), t("c02_ambig_t", "1..=6", (1, 2, 3)), t("c02_comments_t", "1..=6", (1,)), t("c02_lits_t", "1..=7", (1, 3)), t("c02_alts_t", "1..=5", (1, 3)),
                  t("c02_wide_t", "1..=4", (1, 3)),
                  Entry("lex", "c02_symlits_t", "any three different literals of 1..=3 characters over {a,b}, any text of 1..=4 characters over {a,b,c}", (1, 3)),
                  Entry("lex", "c02_symlits_re_t", "any three different literals of 1..=3 characters over {a,b}, the pattern a[ab], any text of 1..=3 characters over {a,b,c}", (1, 3))]),
    "C03": dict(
        quick=[t("c03_lines", "1..=4", (1, 2, 3)), t("c03_skip_lines", "1..=5", (1, 2, 3)), t("c03_comments", "1..=4", (1, 3)), t("c03_wide", "1..=3", (1, 2, 3)),
               Entry("lex", "c03_display", "any label of 0..=3 characters over {a,space,tab,:,\"}, any text of 1..=3 characters", (1,))],
        thorough=[t("c03_lines_t", "1..=6", (1, 2, 3)), t("c03_skip_lines_t", "1..=7", (1, 2, 3)), t("c03_comments_t", "1..=6", (1, 3)), t("c03_wide_t", "1..=4", (1, 2, 3)),
                  Entry("lex", "c03_display", "any label of 0..=3 characters over {a,space,tab,:,\"}, any text of 1..=3 characters", (1,))]),
    "C04": dict(
        quick=[t("c04_core", "1..=4", (1, 2)), t("c04_lits", "1..=5", (1, 2)), t("c04_skip_seq", "1..=4", (1, 2)), t("c04_wide", "1..=3", (1, 2)),
               u("c04_utf8_1", 1, (1, 2)), u("c04_utf8_2", 2, (1, 2)), u("c04_utf8_3", 3, (1, 2)),
               Entry("lex", "c04_symlits", "any two different literals of 1..=3 characters over {a,b}, any text of 1..=4 characters over {a,b,c}", (1, 2))],
        thorough=[Entry("lex", "c04_symlits_t", "any two different literals of 1..=3 characters over {a,b}, the pattern a[ab], any text of 1..=5 characters over {a,b,c}", (1, 2)), t("c04_core_t", "1..=5", (1, 2)), t("c04_lits_t", "1..=7", (1, 2)), t("c04_skip_seq_t", "1..=5", (1, 2)), t("c04_wide_t", "1..=4", (1, 2)),
                  u("c04_utf8_3", 3, (1, 2)), u("c04_utf8_4", 4, (1, 2))]),
    "C05": dict(
        quick=[Entry("lex", "c05_ops", "every sequence of 6 operations out of advance, advance_front, inject of one of three texts (one of them without tokens)", (1, 2, 3, 4)),
               Entry("lex", "c05_splice", "every outer text of 1..=3 and inner text of 0..=2 characters over {a,b,c,space,d}, injected after 0..=2 elements", (1, 2))],
        thorough=[Entry("lex", "c05_ops_t", "every sequence of 8 operations out of advance, advance_front, inject of one of four texts (one of them empty)", (1, 2, 3, 4)),
                  Entry("lex", "c05_splice_t", "every outer text of 1..=4 and inner text of 0..=3 characters over {a,b,c,space,d}, injected after 0..=2 elements", (1, 2))]),
    "C06": dict(
        quick=[Entry("lex", "c06_lits", "every lexicon of 0..=3 literals out of {a,\"\",ab,a(} with tags 0..=2 and end marker 0 or 1", (1, 2)),
               Entry("lex", "c06_mixed", "every lexicon of at most one literal, one pattern and one skip out of {a,\"\",b,a(} with tags 0..=2, end marker 0 or 1", (1, 2)),
               Entry("lex", "c06_res", "every lexicon of at most two patterns and one skip out of {a,\"\",b,[z-a]} with tags 0..=2, end marker 0 or 1", (1, 2)),
               Entry("lex", "c06_order", "every lexicon of at most one literal, one pattern and four skips out of {a,b,c}, in any order", (1, 2)),
               Entry("lex", "c06_order_lits", "every lexicon of at most four literals and one skip out of {a,b,ab,c}, in any order", (1, 2))],
        thorough=[Entry("lex", "c06_order_t", "every lexicon of at most two literals, two patterns and four skips out of {a,b,c,d}, in any order", (1, 2)), Entry("lex", "c06_lits", "every lexicon of 0..=3 literals out of {a,\"\",ab,a(} with tags 0..=2 and end marker 0 or 1", (1, 2)),
                  Entry("lex", "c06_mixed_t", "every lexicon of at most two literals, one pattern and one skip out of {a,\"\",b,a(,*}", (1, 2)),
                  Entry("lex", "c06_res_t", "every lexicon of at most two patterns and two skips out of {a,\"\",b,[z-a]}", (1, 2))]),
}



def d(name, params, need):
    """A driver entry for both libraries."""
    ns, np, err, inj, ml, chars, mt, steps = params
    b = ("every table set (actions, gotos, production lengths 0..=%d%s%s) with %d states and %d productions, and every text of 1..=%d characters over {%s} "
         "('!' is no token), in runs of at most %d driver steps" % (ml, ", recovery tables" if err else "", ", injected texts out of \"\", b, ab, !" if inj else "", ns, np, mt, chars, steps))
    t = "_t" if name.endswith("_t") else ""
    n = name[:-2] if t else name
    return [Entry("drv", n + "_l" + t, "lalr1: " + b, need), Entry("drv", n + "_a" + t, "alalr1: " + b, need)]


DRV = {
    "C07": dict(
        quick=d("c07", (3, 2, 0, 0, 2, "a,b", 3, 9), (1, 2, 3, 4)) + d("c07_inj", (3, 2, 0, 1, 2, "a,b,!", 2, 7), (1, 2, 3, 4)),
        thorough=d("c07_t", (4, 2, 0, 0, 3, "a,b", 3, 8), (1, 2, 3, 4)) + d("c07_inj_t", (3, 2, 0, 1, 2, "a,b,!", 2, 8), (1, 2, 3, 4))),
    "C08": dict(
        quick=d("c08", (3, 1, 1, 0, 2, "a,b,!", 3, 4), (1, 2, 3, 4, 5, 10, 11, 12, 13)) + d("c08_long", (2, 1, 1, 0, 1, "a,b,!", 3, 8), (1, 2, 3, 4, 5, 10, 11, 12, 13))
        + d("c08_inj", (2, 1, 1, 1, 1, "a,!", 3, 7), (1, 2, 3, 4, 5, 10, 11, 12, 13)),
        thorough=d("c08_t", (4, 1, 1, 0, 1, "a,b,!", 3, 4), (1, 2, 3, 4, 5, 10, 11, 12, 13)) + d("c08_long_t", (3, 1, 1, 0, 1, "a,b", 3, 6), (1, 2, 3, 4, 5, 10, 11, 12, 13))
        + d("c08_inj_t", (3, 1, 1, 1, 2, "a,b,!", 2, 5), (1, 2, 3, 4, 5, 10, 11, 12, 13))),
    # C27: parsers that report errors the default way
    "C27": dict(
        quick=[e for c in "la" for e in (
            Entry("drv", "c27_text_" + c, "text of up to 4 bytes of a b ! newline blank, 3 labels, expected tokens of every state", (1, 2, 3, 4)),
            Entry("drv", "c27_errs_" + c, "text of up to 4 bytes of a b !", (1, 2, 3, 4)),
            Entry("drv", "c27_ambig_" + c, "ambiguous text of up to 3 bytes", (5,)),
            Entry("drv", "c27_fatal_" + c, "ambiguous text of up to 2 bytes", (5, 6)))],
        thorough=[e for c in "la" for e in (
            Entry("drv", "c27_text_" + c + "_t", "text of up to 5 bytes", (1, 2, 3, 4)),
            Entry("drv", "c27_errs_" + c + "_t", "text of up to 6 bytes", (1, 2, 3, 4)),
            Entry("drv", "c27_ambig_" + c + "_t", "ambiguous text of up to 5 bytes", (5,)))]),
}



def g(name, what, need, **k):
    """A generator entry for both libraries."""
    t = "_t" if name.endswith("_t") else ""
    n = name[:-2] if t else name
    return [Entry("gen", n + "_l" + t, "lalr1_lib: " + what, need, **k), Entry("gen", n + "_a" + t, "alalr1_lib: " + what, need, **k)]


SH = dict(
    one="S: 0..=3 | 0..=3 symbols over {S,a,b}",
    two="S: 0..=2 | 0..=1, A: 0..=2 symbols over {S,A,a,b}",
    empty="S: xx, A: 0..=1 |, B: 0..=1 | A (x any of A,B,a,b)",
    merge="S: tAt | tAt | tSt, A: t 0..=1 (t any of a,b)",
    chain="S: A x t, A: x | b, B: 0..=1 | a B (x any of A,B,c, t any of a,b,c)",
    one12="S: 0..=3 | 0..=2 symbols over {S,a,b}",
    two12="S: 0..=2, A: 0..=1 | 0..=1 symbols over {S,A,a,b}",
    deep="S: A a | D, A: B 0..=1, B: C, C: x, D: D 0..=1 | t (x any of A,B,C,D,a,b, t any of a,b)",
    mixed="S: A x; B: t 0..=1; A: B; S: x; A: 0..=1 (definitions in this order, x any of A,B,a,b)",
    rr3="S: A 0..=1 | B | C 0..=1, A: t, B: t, C: t (over {a,b})",
    one_t="S: 0..=4 | 0..=3 symbols over {S,a,b}",
    one3_t="S: 0..=3 | 0..=3 | 0..=2 symbols over {S,a,b}",
    two_t="S: 0..=3 | 0..=2, A: 0..=2 symbols over {S,A,a,b}",
    empty_t="S: xxx, A: 0..=1 |, B: 0..=1 | A, C: 0..=1 | c (x any of A,B,C,a,b)",
    merge_t="S: tAt | tBt | tAt | tB 0..=1, A: t 0..=1, B: t (t any of a,b, others over {a,b,A,B})",
    chain_t="S: A x t, A: x | b, B: 0..=1 | a C, C: x 0..=1 | t (x any of A,B,C,c, t any of a,b,c)",
    deep_t="S: A t | D, A: B 0..=1, B: x, C: x, D: D 0..=1 | t 0..=1 (x any of A,B,C,D,a,b, t any of a,b)",
    one12_t="S: 0..=3 | 0..=3 | 0..=1 symbols over {S,a,b}",
    two12_t="S: 0..=2, A: 0..=2 | 0..=2 symbols over {S,A,a,b}",
    rr12_t="S: A 0..=1 | B 0..=1, A: t 0..=1 | t, B: t 0..=1 (t any of a,b, others over {a,b,A,B})",
    rr12="S: A 0..=1 | B 0..=1, A: t 0..=1, B: t 0..=1 (over {a,b})",
)


def lang(n, shape, need, mx):
    return g(n, "every grammar of the shape %s in which every non terminal derives some text, every text of 1..=%d tokens" % (SH[shape], mx), need)


GEN = {
    "C09": dict(quick=lang("c09_one", "one", (4, 5), 4) + lang("c09_two", "two", (4, 5), 4) + lang("c09_empty", "empty", (4, 5), 4) + lang("c09_merge", "merge", (4, 5), 5)
                + lang("c09_chain", "chain", (4, 5), 4) + lang("c09_deep", "deep", (4, 5), 4) + lang("c09_mixed", "mixed", (4, 5), 4)),
    "C11": dict(quick=g("c11_binary", "E: E a E | E b E | c with a and b on any of two precedence lines, each %left or %right, the rule for a with %prec by name or text or without; every expression of at most 3 operators", (1,))
                + g("c11_prefix", "E: E a E | E b E | c | d E with a, b and the prefix rule on any of three precedence lines, each %left or %right, the level of the prefix rule from its token, a tag or a literal; every expression of at most 2 binary operators", (1,))
                + g("c11_levels", "E: E a E | x E b E | c with x any of a,b,d and a,b,d on no precedence line or a %left, %right or %nonassoc one; every expression of 2 operators with up to 8 prefixes", (1,))),
    "C12": dict(quick=g("c12_one", "every grammar of the shape %s, every declaration %%shift_reduce, %%reduce_reduce 0..=2, every text of 1..=4 tokens" % SH["one12"], (1, 2, 3, 4))
                + g("c12_two", "every grammar of the shape %s, every declaration 0..=1, every text of 1..=4 tokens" % SH["two12"], (1, 2, 3, 4))
                + g("c12_rr", "every grammar of the shape %s, every declaration 0..=2, every text of 1..=4 tokens" % SH["rr12"], (1, 2, 3, 4))
                + g("c12_rr3", "every grammar of the shape %s, every declaration 0..=3, every text of 1..=3 tokens" % SH["rr3"], (1, 2, 3, 4))
                + g("c12_levels", "E: E a E | d E b E | c with a,b,d on no precedence line or on any of two, each %left, %right or %nonassoc; every declaration %shift_reduce 0..=4", (1, 2))),
    "C13": dict(quick=lang("c13_one", "one", (4, 5, 7, 8, 9), 4) + lang("c13_two", "two", (4, 5, 7, 8, 9), 4) + lang("c13_empty", "empty", (4, 5, 7, 8), 4) + lang("c13_chain", "chain", (4, 5, 7, 8, 9), 4) + lang("c13_deep", "deep", (4, 5, 7, 8, 9), 4)),
    "C15": dict(quick=g("c15_history", "one fixed specification before and after any of 1152 others (accepted, refused in various ways); the other one twice; any of 16 specifications with conflicts before and after any of 36 others with conflicts, declared or not", (1, 2, 3, 4, 5))
                + g("c15_whole", "the whole outcome (description, what is printed, code) of one specification before and after any of others, with recovery, conflicts and errors", (6, 7))),
    "C17": dict(quick=[Entry("gen", "c17_one", "every grammar of the shape %s, with no precedences, %%left a, or %%right b %%left a, conflicts ignored" % SH["one12"], (2,)),
                       Entry("gen", "c17_two", "every grammar of the shape %s, with no precedences, %%left a, or %%right b %%left a" % SH["two12"], (1, 2))]),
}

def w(name, what, need):
    """An entry of the augmented generator only."""
    return [Entry("gen", name, "alalr1_lib: " + what, need)]


PIECE = "every text of at most %s as %s of a specification"
PLACES = ["the preamble's end or a declaration", "an expected number of conflicts", "the text of a token", "an argument of %left", "part of a right hand side", "a rule"]
GEN.update({
    "C10": dict(
        quick=g("c10_actions", "4 productions, any of them with an action, one action any of 11 pieces of text ($, $$, $1, $20, $INJECT, digits, a string literal, ...)", (1,))
        + g("c10_bodies", "4 productions, one of them with an action of up to 3 out of 11 pieces of text ($, $$, $1, $20, $INJECT, digits, a string literal, ...)", (1, 2)),
        thorough=g("c10_actions_t", "4 productions, any of them with an action, one action of up to 2 out of 11 pieces of text", (1,))
        + g("c10_bodies_t", "4 productions, one of them with an action of up to 4 out of 11 pieces of text", (1, 2))),
    "C14": dict(
        quick=g("c14_definitions", "3 token definitions out of 8 texts with any of 2 names each, up to 2 skips out of 4", (1, 2))
        + g("c14_tags", "3 precedence arguments out of 7 (undeclared, twice, tags) on 2 lines, %prec with any of 6 arguments", (1, 2))
        + g("c14_symbols", "2 symbols out of 6 (undefined ones and literals too), 4 kinds of second left hand side, 5 kinds of attribute references", (1, 2, 3))
        + sum((g("c14_bytes%d" % i, PIECE % ("2 ASCII characters", PLACES[i]), ()) for i in range(6)), []),
        thorough=sum((g("c14_bytes%d_t" % i, PIECE % ("4 characters out of 16", PLACES[i]), ()) for i in (0, 2, 3, 4, 5)), [])
        + g("c14_definitions", "3 token definitions out of 8 texts with any of 2 names each, up to 2 skips out of 4", (1, 2))
        + g("c14_tags", "3 precedence arguments out of 7 (undeclared, twice, tags) on 2 lines, %prec with any of 6 arguments", (1, 2))
        + g("c14_symbols", "2 symbols out of 6 (undefined ones and literals too), 4 kinds of second left hand side, 5 kinds of attribute references", (1, 2, 3))),
    "C16": dict(
        quick=w("c16_same", "S: A 0..=1 | B, A: t | t, B: t (t any of a,b), predicates on any of the last three, declared conflicts 0..=2, any truth, texts of 1..=2 tokens", (1, 2, 3, 4, 5, 6))
        + w("c16_three", "S: A 0..=1 | B | C 0..=1, A: t, B: t, C: t, predicates on any but the first, declared conflicts 0..=2, any truth, texts of 1..=2 tokens", (1, 2, 3, 4, 5, 6))
        + w("c16_empty", "S: A t | B t, A: 0..=1, B: 0..=1 | (over {a,A}), predicates on any but the first, declared conflicts 0..=2, any truth, texts of 1..=2 tokens", (1, 2, 3, 4, 5, 6)),
        thorough=w("c16_more_t", "S: A 0..=1 | B 0..=1, A: t | t 0..=1, B: t 0..=1 (over {a,b}), predicates on any of the last three, any truth, texts of 1..=3 tokens", (1, 2, 3, 4, 5, 6))
        + w("c16_empty_t", "S: A t 0..=1 | B t, A: 0..=1 | b, B: 0..=1 | (over {a,A,B}), predicates on any, any truth, texts of 1..=3 tokens", (1, 2, 3, 4, 5, 6))),
    "C19": dict(
        quick=g("c19_texts", "a literal, a token pattern or a skip pattern of 1..=3 out of 9 pieces (quotes, backslashes, hashes, braces, classes, non ASCII) among two other definitions", (1,)),
        thorough=g("c19_texts_t", "a literal, a token pattern or a skip pattern of 1..=4 out of 9 pieces (quotes, backslashes, hashes, braces, classes, non ASCII) among two other definitions", (1,))),
    "C22": dict(
        quick=g("c22_one", "S: x 0..=1 | 0..=2 | t with x any of S,%error,a,b; declared conflicts 0..=2", (1, 2, 3, 4, 5))
        + g("c22_two", "S: A x | 0..=1, A: %error | 0..=1 | 0..=1 %error (x any of A,%error,a,b); declared conflicts 0..=2", (1, 2, 3, 4, 5))
        + g("c22_list", "S: S A t | , A: x | 0..=1 %error, B: t 0..=1 (x any of B,%error,a,b; t any of a,b,c); declared conflicts 0..=2", (1, 2, 3, 4, 5)),
        thorough=g("c22_one_t", "S: x 0..=2 | 0..=2 | t 0..=1 with x any of S,%error,a,b", (1, 2, 3, 4, 5))
        + g("c22_two_t", "S: A x | 0..=2, A: %error | 0..=1 | 0..=1 %error (x any of S,A,%error,a,b)", (1, 2, 3, 4, 5))),
    "C23": dict(quick=g("c23_injected", "a specification in 11 parts, any 1..=3 consecutive parts in one or two (nested) injected files, or one file injected twice, or the file empty or missing; two variants of the precedences, two of a rule", (1, 2, 3))),
})

GEN["C25"] = dict(quick=g("c25_single", "a specification with any of 28 faults, or none, in its definitions, precedences or rules (also in an injected file), any white space, comments and line ends at three places before", (1, 2, 3, 4))
                  + g("c25_double", "any of 17 faults in definitions and precedences with any of 11 in the rules (also in an injected file), any white space at three places", (1, 2, 3, 4)))

D = "every grammar of the shape %s, any of three precedence declarations, %%prec with a tag or a token or none on the last production, conflicts ignored or refused"
GEN["C26"] = dict(quick=g("c26_one", D % "S: x 0..=1 | 0..=2 | t (over {S,a,b})", (1, 2, 4))
                  + g("c26_error", D % "S: A B | 0..=1 b, A: a 0..=1 | %error, B: | a (over {A,%error,c})", (1, 2, 3))
                  + g("c26_levels", D % "S: S t S | A | 0..=1, A: x 0..=1 c (over {S,A,a})", (1, 2, 4))
                  + g("c26_rr", D % "S: A 0..=1 | B t, A: t, B: t | t %error (over {A,B,a,b})", (2, 3)))

TOOL = {
    "C18": dict(quick=[Entry("tool", "c18_library_" + x, "%s: any of 10 specifications (fine, refused in six ways, missing, no UTF-8, a directory), by path or as text, any of 4 outputs, over nothing, a longer file, or a directory" % l, (1, 2, 3))
                       for x, l in (("l", "lalr1_lib"), ("a", "alalr1_lib"))]),
    "C21": dict(quick=[Entry("tool", "c21_program_" + x, "%s: any of 10 specifications under 3 names, any flags in both spellings, 4 outputs, output or description there as file or directory or not" % l, (8, 10, 11, 12, 14, 16, 17))
                       for x, l in (("l", "lalr1_gen"), ("a", "alalr1_gen"))]),
}



def two(name, what, need):
    t = "_t" if name.endswith("_t") else ""
    n = name[:-2] if t else name
    return [Entry("gp", n + "_" + x + t, "%s: %s" % (l, what), need) for x, l in (("l", "lalr1"), ("a", "alalr1"))]


def made(tier):
    i = 0 if tier == "quick" else 1
    t = ["", "_t"][i]
    return (two("c20_calc" + t, "a calculator with + - * ^, a prefix and brackets, actions and all; every text of 1..=%d characters over {1,+,*,-,(,)}" % (6, 7)[i], (1, 2))
            + two("c20_calc_text" + t, "the same, every text of 1..=%d characters over {1,2,+,^,-,space,!} (! is no token)" % (5, 6)[i], (1, 2))
            + two("c20_many", "a rule of twelve symbols with references to all of them, rules without symbols; any letters", (1, 2))
            + two("c20_inject" + t, "actions that inject texts (two at once, nested, without tokens), every text of 1..=%d characters over {a,b,c,d,e}" % (5, 7)[i], (1, 2))
            + two("c20_recover" + t, "recovery in brackets and statements, every text of 1..=%d characters over {x,1,;,(,)}" % (6, 7)[i], (1, 2, 3, 4))
            + two("c20_recover_text" + t, "recovery in statements, every text of 1..=%d characters over {x,1,;,!} (! is no token)" % (6, 8)[i], (1, 2, 3))
            + two("c20_texts" + t, "eleven tokens with quotes, braces, hashes, comment marks, non ASCII; every text of 1..=%d of them or skipped texts" % (2, 3)[i], (1,))
            + [Entry("gp", "c20_preds" + t, "alalr1: predicates on attributes and the state of the parser; every 1..=%d statements over {p,q,r}, {0,1,2,3}" % (4, 5)[i], (1, 2, 3, 4, 5, 6))])


GP = {"C20": dict(quick=made("quick"), thorough=made("thorough"))}



def own(tier):
    q = tier == "quick"
    t = "" if q else "_t"
    n = "one token out of %s is replaced, added or left out" if q else "two tokens in a row are replaced by any two out of %s"
    L = []
    for part, what in (("head", "the preamble and declarations"), ("tokens", "the definitions of tokens"), ("levels", "the precedences"), ("rules", "the rules")):
        L += [Entry("boot", "c24_%s_%s%s" % (part, x, t), "%s: a specification of which, anywhere in %s, %s" % (l, what, n % "all kinds there are"), (1, 2, 3)) for x, l in (("l", "lalr1_lib"), ("a", "alalr1_lib"))]
    L += [Entry("boot", "c24_bytes_%s%s" % (x, t), "%s: any %s in any of twelve places of a specification" % (l, "ASCII character" if q else "two ASCII characters"), ()) for x, l in (("l", "lalr1_lib"), ("a", "alalr1_lib"))]
    return L


BOOT = {"C24": dict(quick=own("quick"), thorough=own("thorough"))}

ASSUME = ["std and all dependencies (regex, regex-automata, aho-corasick) are executed symbolically together with the code of the repository, not modelled",
          "HashMap keys are seeded with a fixed pattern (the property does not depend on iteration order)"]


# parts of other properties' checks that decide these, too, on compiled parsers
MORE = {
    "C10": [("gp", two("c20_many", "a rule of twelve symbols with references to all of them, rules without symbols or actions; any letters", (1, 2)))],
}


def group(c, crate, table, extra=()):
    exe = vf.engine()
    try:
        cr = {"gp": vf.Generated, "boot": vf.Booted}.get(crate, Crate)(crate).build()
    except vf.Refused as r:
        return c.violation("no parser to run", str(r))
    ents = table if isinstance(table, list) else table[c.prop].get(c.tier) or table[c.prop]["quick"]
    nat = cr.native([e.name for e in ents])
    c.assumptions += [a for a in ASSUME + list(extra) if a not in c.assumptions]
    for e in ents:
        e.time = 200 if c.tier == "quick" else 840
        c.run_entry(exe, cr, nat, e)


def run(c):
    main(c)
    for crate, ents in MORE.get(c.prop, []):
        group(c, crate, ents)


def main(c):
    if c.prop in LEX:
        return group(c, "lex", LEX)
    if c.prop in DRV:
        return group(c, "drv", DRV, ["tables are chosen lazily, entry by entry, as the reference driver asks for them; the real driver asking for any other entry is a violation"])
    if c.prop in GEN:
        return group(c, "gen", GEN, ["what a generator writes is read back from a virtual file by a reader of the emitted table code"])
    if c.prop in TOOL:
        return group(c, "tool", TOOL, ["files are those of a virtual file system; leaving the process ends a path and is judged by the harness"])
    if c.prop in GP:
        return group(c, "gp", GP, ["the parsers are written by the generators, natively, when the check starts; the specifications are fixed, the texts symbolic"])
    if c.prop in BOOT:
        return group(c, "boot", BOOT, ["the generators' parsers are written by the generators, natively, from the specifications in /repo when the check starts"])
    raise Broken("unknown property " + c.prop)
