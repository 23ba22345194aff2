"""Which grammars each property's check simulates: curated ones, then random ones from the seed."""
from gen import *

MIX = ('char', 'elem')

def curated():
    g = []
    def add(name, root, tags, **kw): g.append((name, root, set(tags.split()), kw))
    # --- basics, every element type
    for vt in ('char', 'wchar', 'c8', 'c16', 'c32', 'int', 'enum', 'elem', 'uchar', 'i64', 'dbl'):
        add('basic_' + vt, C(L('abc'), S(A('ac'), N('b')), P(A('xy'))), 'basic c02 c03 c12 elem', vt=vt, style='raw', allr=True)
    add('het_int', S(L('ab'), Z(N('c')), M(L('c'))), 'basic c02 c03 elem', vt='char', elems=['int', 'elem', 'wchar'], style='raw')
    add('het_elem', D(F(J(P(A('abc')))), L(',')), 'basic c05 elem tok', vt='char', elems=['elem', 'char', 'i64'], style='raw')
    add('elem_lit', P(C(F(L('abc'), 5), F(A('xyz'), 0))), 'c05 c04 c09 elem tok', vt='elem', style='raw')
    add('elem_rep', DK(F(P(A('ab')), 3), A(',;')), 'c05 c13 elem tok', vt='elem', style='raw')
    add('elem_join', S(J(P(L('ab'))), J(Z(A('c'))), J(M(L('d'))), J(E(3, A('ef')))), 'c05 c15 elem', vt='elem', style='raw')
    add('wide_join', J(S(P(A('ab')), Z(L('cd')))), 'c15 c03 elem', vt='wchar', style='raw', allr=True)
    add('i64_rep', S(D(F(L('ab'), 0), A(',;')), Z(N('c'))), 'c02 c13 c12 elem tok', vt='i64', style='raw')
    add('dbl_rep', S(P(C(('all', (0, 97)), ('any', (0, 98)), L('ab'))), Z(('none', (0,)))), 'c02 c13 c12 c03 elem', vt='dbl', style='raw')
    add('dbl_word', S(J(P(('all', (0, 0, 97)))), M(('any', (0, 97)))), 'c02 c15 c12 elem', vt='dbl', style='raw')
    add('int_rep', P(S(L('ab'), M(A('c')))), 'c13 c03 elem', vt='int', style='raw')
    # --- symbols that are easily confused: zero, high bytes, wide codes with the same low bits
    hi = lambda *c: ('any', tuple(sorted(c)))
    al = lambda *c: ('all', tuple(c))
    no = lambda *c: ('none', tuple(sorted(c)))
    for vt, x in (('char', (0xe9, 0xc3, 0xff)), ('uchar', (0xe9, 0xc3, 0xff)), ('c8', (0xe2, 0x82, 0xac)), ('c16', (0x161, 0xff61, 0xd861)), ('c32', (0x161, 0x10061, 0x1f600)), ('wchar', (0x161, 0x10061, 0x3042)), ('int', (0x161, 0x10061, 70000)), ('elem', (0x161, 0x10061, 255)), ('enum', (0x161, 0x10061, 128)), ('i64', (0x161, 0x10061, 128)), ('dbl', (0x161, 0x10061, 128))):
        add('sym_' + vt, C(S(al(97, x[0], x[1]), Z(hi(0, 97, x[0]))), P(S(hi(x[0], x[2]), no(0, 97, x[1]))), J(P(al(x[1], 0, 98))), S(P(no(x[0], x[1], x[2])), M(al(x[2], x[2])))), 'c02 c03 c12 c14 c15 elem sym', vt=vt, style='raw')
    add('sym_doc', D(F(J(P(no(0, 44))), 0), al(0)), 'c02 c03 c13 c12 sym tok')
    add('sym_doc2', S(J(Z(hi(*range(0xc0, 0xe0)))), Z(S(al(0xe2, 0x82), hi(0xac, 0xad))), M(al(0xff))), 'c02 c03 c13 c15 c10 sym')
    add('het_wide', C(S(L('ab'), P(N('b'))), Z(A('bc'))), 'c02 c03 c12 elem sym', vt='char', elems=['int', 'wchar', 'c16', 'c32', 'c8', 'uchar'], style='raw')
    add('het_join', S(J(P(L('ab'))), J(Z(A('cd'))), J(E(3, N('x')))), 'c02 c03 c15 elem sym', vt='char', elems=['elem', 'wchar', 'c16', 'int', 'dbl', 'i64'], style='raw')
    add('het_rep', DK(F(J(P(A('abc'))), 0), L('--')), 'c02 c03 c13 c09 elem sym tok', vt='char', elems=['c16', 'int', 'elem', 'dbl'], style='raw')
    add('het_choice', C(F(L('ab'), 0), F(S(A('ab'), N('b')), 1), I(ANY)), 'c02 c14 c05 elem sym tok', vt='char', elems=['elem', 'c32', 'uchar'], style='raw')
    # --- documents
    num = J(S(M(A('+-')), P(A('0123456789'))))
    add('numlist', D(F(num, 0), L(',')), 'c01 c02 c03 c04 c05 c06 c09 c10 c12 c13 tok doc')
    add('numlist_move', S(I(L('[')), D(F(num, 1), L(',')), I(L(']'))), 'c01 c02 c04 c05 c06 c09 c10 c12 c13 tok doc')
    add('numlist_throwmove', CP(D(F(num, 3), S(Z(L(' ')), L(','), Z(L(' '))))), 'c01 c02 c04 c05 c09 c13 tok doc')
    add('numlist_body', D(F(num, 5), L(',')), 'c01 c04 c05 c09 c12 tok doc')
    kv = F(S(J(P(A('abcdef'))), I(L('=')), num), 0, 0, 1)
    add('kvlist', S(D(kv, L(';')), M(L('.'))), 'c01 c02 c04 c05 c06 c09 c10 c12 c13 tok doc')
    add('csv', D(D(F(J(Z(N(',|'))), 0), L(',')), L('|')), 'c01 c02 c03 c04 c06 c08 c09 c12 c13 tok doc')
    add('quoted', S(I(L('"')), F(J(Z(C(N('"\\'), L('\\"'), L('\\\\')))), 0), I(L('"'))), 'c02 c03 c10 c14 c15 tok doc')
    add('lines', P(S(J(Z(N('n'))), I(L('n')))), 'c02 c03 c04 c12 c13 doc')
    add('frames', P(F(S(I(L('<<')), J(P(A('abc'))), J(E(2, A('01'))), I(L('>>'))), 0, 0, 1)), 'c01 c02 c03 c04 c05 c06 c09 c10 c13 tok doc')
    add('keyed', P(C(F(S(L('if'), I(P(L(' '))), J(P(A('ab')))), 0), F(S(L('i'), A('xyz')), 1), F(L('abcdefgh'), 5), F(A('ab'), 30))), 'c01 c02 c04 c05 c06 c09 c10 c14 tok doc')
    add('ops', S(F(num, 0), Z(S(A('+*'), F(num, 0)))), 'c01 c02 c04 c05 c06 c09 c12 tok doc')
    add('words', D(J(P(A('abc'))), P(L(' '))), 'c01 c02 c03 c04 c12 c13 c15 doc')
    # --- choice
    add('ch_void_first', C(I(L('a')), L('b'), L('cd')), 'c14 c02')
    add('ch_void_mid', C(L('a'), I(L('b')), P(A('c')), P(A('d'))), 'c14 c02 c04')
    add('ch_dup', C(L('a'), L('ab'), P(L('c')), P(L('d')), M(L('e'))), 'c14 c02')
    add('ch_dup2', C(F(L('ax'), 0), F(L('ay'), 1), F(L('az'), 0), F(L('a'), 1), I(L('b')), F(L('c'), 5), F(L('cd'), 5)), 'c14 c02 c05 c06 c09 c10 tok')
    add('ch_same', C(F(L('ab'), 0), F(L('a'), 0), F(A('abc'), 0)), 'c14 c06 c09 c10 tok')
    add('ch_prefix', C(S(L('a'), L('b'), L('c')), S(L('a'), L('b')), L('a')), 'c14 c10 c02')
    add('ch_allvoid', C(I(L('ab')), I(S(L('a'), L('c'))), I(L('a'))), 'c14 c02')
    add('ch_voidmap', C(F(L('a'), 10), F(S(L('b'), L('c')), 10), X(I(L('b')), 0)), 'c14 c06 c05 tok0')
    add('ch_voidfilter', C(X(I(L('a')), 1), X(I(L('ab')), 0), L('abc')), 'c14 c06 c02')
    add('ch_filter', C(X(F(L('ab'), 0), 1), X(F(L('a'), 0), 0), F(L('abc'), 1)), 'c14 c10 c06 c09 tok')
    add('ch_ten', C(*[F(S(L('k'), L(c)), i % 2) for i, c in enumerate('abcdefghij')]), 'c14 c06 c09 c10 tok')
    add('ch_eps', S(L('a'), C(L('b'), F(L('c'), 0), EPS), M(L('d'))), 'c14 c02')
    add('ch_nested', C(C(S(L('a'), F(L('b'), 0)), F(S(L('a'), L('c')), 1)), C(F(L('a'), 10), S(L('a'), L('d')))), 'c14 c06 c10 tok')
    add('ch_rep', Z(C(F(L('aa'), 0), F(L('a'), 1), I(L('b')), P(A('cd')))), 'c14 c09 c13 c04 c05 tok')
    add('ch_complete', C(CP(F(P(A('ab')), 0)), CP(F(S(P(A('ab')), L('c')), 0)), F(A('abc'), 1)), 'c14 c10 c09 tok')
    add('ch_pubeps', C(L('ab'), P(L('c')), EPS), 'c14 c02')
    add('ch_lookback', S(C(S(L('ab'), L('c')), L('a')), Z(C(L('b'), L('cd'), L('c')))), 'c14 c02 c10')
    add('ch_types', C(P(L('a')), E(2, L('b')), M(S(L('c'), L('d'))), S(L('e'), L('f')), P(L('g')), E(2, L('h'))), 'c14 c02 c04')
    # --- repetition
    add('rep_torn', S(P(S(L('ab'), L('cd'))), M(L('ab'))), 'c13 c02 c10 c03')
    add('rep_star_torn', S(Z(L('abc')), M(L('ab')), M(L('c'))), 'c13 c02 c10 c03')
    add('rep_exact', S(E(3, F(L('ab'), 0)), M(L('a'))), 'c13 c10 c09 c06 tok')
    add('rep_exact12', E(12, F(A('ab'), 5)), 'c13 c04 c09 c05 tok')
    add('rep_exact1', E(1, S(F(L('a'), 1), F(M(L('b')), 0))), 'c13 c09 tok')
    add('rep_exact_void', S(E(2, I(L('ab'))), M(L('a'))), 'c13 c10')
    add('rep_exact_void5', S(E(5, I(L('ab'))), M(L('a'))), 'c13 c10 c02')
    add('rep_exact_void8', S(E(8, I(A('abc'))), M(A('abc'))), 'c13 c10 c07')
    add('rep_exact_void20', C(E(20, F(A('ab'), 10)), Z(A('ab'))), 'c13 c10 c06')
    add('rep_exact40', S(E(40, A('ab')), M(A('ab'))), 'c13 c10 c02 c03')
    add('rep_exact300', C(S(E(300, I(A('ab'))), M(A('ab'))), Z(L('a'))), 'c13 c10 long')
    add('rep_exact_seq', C(S(E(6, S(A('ab'), I(L('-')))), M(L('c'))), S(A('ab'), L('-'))), 'c13 c10 c02')
    add('rep_void_words', S(P(I(P(A('abcd')))), M(L('e'))), 'c13 c07 long')
    add('rep_void_star', S(Z(I(L('ab'))), Z(A('abc'))), 'c13 c10 long')
    add('rep_delim_void_long', S(D(I(A('ab')), L(',')), M(L(','))), 'c13 c10 long')
    add('rep_join_long', S(J(Z(A('ab'))), M(L('c'))), 'c13 c15 c03 long')
    add('rep_join_long2', S(J(P(N('c'))), M(L('c'))), 'c13 c15 c03 c12 long')
    add('rep_long_tok', S(P(F(A('ab'), 1)), M(L('c'))), 'c13 c09 c10 tok long')
    add('rep_delim_long', D(F(A('abc'), 0), L(',')), 'c13 c09 c04 c12 tok long')
    add('rep_delimk_long', DK(F(A('abc'), 3), F(L(','), 1)), 'c13 c09 c05 tok long')
    add('rep_delim_two', S(D(D(F(A('ab'), 0), L(';')), L(';;')), Z(L(';'))), 'c13 c10 c02 c09 tok')
    add('rep_delim_prefix', S(D(A('ab'), S(L(','), M(L(' ')))), M(L(', '))), 'c13 c10 c02')
    add('rep_delim_any', S(D(P(N(',')), ANY), M(ANY)), 'c13 c02')
    add('rep_delim_lookahead', S(D(X(F(A('ab'), 0), 3), F(L(','), 1)), Z(A(',ab'))), 'c13 c06 c10 c09 tok')
    add('rep_delim_delimk', DK(D(F(A('ab'), 0), L(',')), F(L(';'), 0)), 'c13 c09 c06 tok')
    add('rep_delim_multi', S(D(J(P(A('ab'))), L('::')), M(L(':'))), 'c13 c02 c10 c03')
    add('rep_delimk_multi', S(DK(F(P(A('ab')), 0), L('--')), Z(A('-a'))), 'c13 c09 c10 c06 tok')
    add('rep_delimk_tok', S(DK(F(A('ab'), 0), F(A(',;'), 1)), M(L(','))), 'c13 c09 c06 c10 c04 c05 tok')
    add('rep_delimk_pv', DK(I(A('ab')), F(A(',;'), 0)), 'c13 c09 c06 tok')
    add('rep_delimk_dv', DK(F(A('ab'), 1), I(L(','))), 'c13 c09 c06 tok')
    add('rep_delimk_vv', S(DK(I(A('ab')), I(L(','))), M(L(','))), 'c13 c10')
    add('rep_delim_sideeffect', S(D(F(A('ab'), 0), F(L(','), 0)), M(L(','))), 'c13 c06 c07 tok')
    add('rep_nested', P(S(I(L('(')), Z(S(F(A('ab'), 0), Z(F(A('xy'), 1)))), I(L(')')))), 'c13 c09 c04 c05 c10 tok')
    add('rep_delim_nested', D(S(F(L('k'), 0), M(S(I(L('=')), D(F(A('ab'), 1), L('/'))))), L('&')), 'c13 c09 c04 c10 c06 tok')
    add('rep_plus_choice', P(C(S(L('a'), L('b')), S(L('a'), L('c')), L('d'))), 'c13 c14 c02')
    add('rep_long', Z(F(A('abcdefgh'), 0)), 'c13 c09 c04 c05 c12 c01 tok long')
    add('rep_long_move', P(F(A('abcdefgh'), 4)), 'c13 c09 c05 tok long')
    add('rep_long_copy', P(F(A('abcdefgh'), 2)), 'c13 c09 c05 c04 tok long')
    add('rep_long_nodef', Z(F(A('abcdefgh'), 6)), 'c13 c09 c04 tok long')
    add('rep_long_span', P(N('z')), 'c13 c02 c03 c04 long')
    add('rep_void_long', S(P(I(A('abcd'))), Z(L('e'))), 'c13 c02 c07 long')
    add('rep_plusvoidcb', P(F(A('ab'), 10)), 'c06 c13 c05')
    add('rep_starfilter', S(Z(X(F(A('abcdefgh'), 0), 3)), Z(A('abcdefgh'))), 'c06 c13 c10 c09 tok')
    # --- nullable repetitions
    add('nul_star_maybe', Z(M(L('ab'))), 'c08 c02', style='raw')
    add('nul_plus_maybe', S(P(M(L('ab'))), M(L('c'))), 'c08 c02', style='raw')
    add('nul_plus_star', P(Z(F(A('ab'), 0))), 'c08 c09 c06 tok', style='raw')
    add('nul_star_star', Z(S(Z(F(A('ab'), 0)), Z(L('c')))), 'c08 c09 tok')
    add('nul_delim', D(Z(A('ab')), Z(L(','))), 'c08 c02')
    add('nul_delimk', DK(F(J(Z(A('ab'))), 0), J(Z(L(',')))), 'c08 c09 c06 tok')
    add('nul_choice', Z(C(L('ab'), F(L('c'), 0), EPS)), 'c08 c02')
    add('nul_empty_lit', Z(L('')), 'c08')
    add('nul_empty_lit2', S(P(L('')), A('a')), 'c08')
    add('nul_join_star', S(J(Z(L(''))), M(L('a'))), 'c08 c15', style='raw')
    add('nul_join_plus', J(P(L(''))), 'c08 c15', style='raw')
    add('nul_join_exact', S(J(E(3, L(''))), M(L('a'))), 'c08 c15 c13', style='raw')
    add('nul_join_exact2', S(J(E(2, M(L('ab')))), M(L('a'))), 'c08 c15 c13')
    add('nul_join_maybe', S(J(M(L(''))), M(L('a'))), 'c08 c15', style='raw')
    add('nul_join_plus2', S(J(P(M(A('ab')))), J(Z(Z(L('c'))))), 'c08 c15', style='raw')
    add('nul_exact_star', S(E(3, Z(A('ab'))), M(L('c'))), 'c08 c13')
    add('nul_exact_void', S(E(4, I(M(A('ab')))), M(A('ab'))), 'c08 c13 c07')
    add('nul_delim_dempty', S(D(A('ab'), L('')), M(L('c'))), 'c08 c13')
    add('nul_delimk_dempty', DK(F(A('ab'), 0), M(F(L(','), 1))), 'c08 c13 c09 tok')
    add('nul_delim_both', S(DK(M(F(A('ab'), 0)), M(F(L(','), 0))), Z(L('c'))), 'c08 c13 c09 c06 tok')
    add('nul_delim_void', S(D(I(M(L('a'))), I(M(L(',')))), M(L('b'))), 'c08 c07')
    add('nul_void_rep', S(Z(I(M(L('ab')))), P(I(Z(L('c')))), M(L('d'))), 'c08 c07 c13', style='raw')
    add('nul_filter_false', S(Z(X(M(A('ab')), 1)), Z(A('ab'))), 'c08 c06 c10')
    add('nul_seq_empty', S(Z(S(M(L('a')), I(L('')), Z(L('b')))), M(L('c'))), 'c08', style='raw')
    add('nul_choice2', S(P(C(L('ab'), M(L('a')), L('b'))), M(L('c'))), 'c08 c14 c13')
    add('nul_complete2', S(Z(C(CP(M(L('a'))), L('ab'))), M(L('b'))), 'c08 c10')
    add('nul_custom', R(0), 'c08 c11 tok', recs=[F(S(Z(M(S(I(L('(')), F(R(0), 0), I(L(')'))))), M(A('ab'))), 0)], rectypes=[('tok', 0)])
    add('nul_exactly', E(3, M(F(A('a'), 0))), 'c08 c13 tok')
    add('nul_delim_p', S(D(M(F(L('a'), 0)), L(',')), M(L(','))), 'c08 c13 c06 tok')
    add('nul_ignore', I(Z(S(M(L('a')), M(L('b'))))), 'c08 c07')
    add('nul_deep', Z(P(M(Z(S(M(L('a')), Z(F(L('b'), 0))))))), 'c08', style='raw')
    add('nul_complete', C(CP(Z(M(L('a')))), Z(N('a'))), 'c08')
    add('nul_name', Z(NM(M(NM(L('ab'), 'x')), 'y')), 'c08')
    add('nul_filter', Z(X(M(F(A('ab'), 0)), 3)), 'c08 c06 tok')
    add('nul_map', S(Z(F(M(L('ab')), 0)), M(L('c'))), 'c08 c06 tok')
    add('nul_mapvoid', P(F(Z(A('ab')), 10)), 'c08 c06')
    # --- functions
    add('fn_void', S(F(L('a'), 10), F(L('b'), 10), M(F(L('c'), 10)), L('d')), 'c06 c05 c07')
    add('fn_voidmap_noarg', F(I(L('ab')), 0), 'c06')
    add('fn_voidvoid', S(F(I(L('a')), 10), X(I(L('b')), 2), L('c')), 'c06 c05')
    add('fn_chain', F(F(F(S(F(A('ab'), 0), F(A('cd'), 1)), 0, 0, 1), 11), 0), 'c06 c09 c05 c10 tok')
    add('fn_byvalue', F(S(F(A('ab'), 1), F(A('cd'), 5)), 0, 1, 1), 'c06 c09 c05 c04 tok')
    add('fn_byvalue2', F(P(F(A('ab'), 3)), 0, 1), 'c06 c09 c05 c04 tok')
    add('fn_constref', F(P(F(A('ab'), 2)), 11, 2), 'c06 c09 c05 c04 tok')
    add('fn_passthrough', D(F(F(P(A('ab')), 1), 11, 1), L(',')), 'c06 c09 c05 c10 tok')
    add('fn_into', P(F(S(A('ab'), F(A('cd'), 1)), 30, 0, 1)), 'c06 c09 c05 c04 tok')
    add('fn_into2', D(F(J(P(A('ab'))), 35), F(L(','), 31)), 'c06 c09 c05 c04 c07 tok')
    add('fn_applyfilter', Z(X(S(F(A('ab'), 0), I(L('-')), F(A('ab'), 1)), 3, 1)), 'c06 c09 c10 tok')
    add('fn_filterchain', S(M(X(X(F(P(A('ab')), 1), 3), 2)), Z(A('abc'))), 'c06 c09 c10 tok')
    add('fn_ignored', S(I(F(A('ab'), 0)), F(A('cd'), 0), I(X(L('e'), 1))), 'c06 c07 c02 tok')
    add('fn_const', D(F(A('ab'), 20), F(L(','), 21)), 'c06 c02')
    add('fn_const2', S(F(P(F(A('ab'), 0)), 20), DK(F(L('c'), 12), F(L(','), 21))), 'c06 c04 c09 tok')
    add('fn_seqmany', F(S(F(A('a'), 0), F(A('b'), 1), F(A('c'), 2), F(A('d'), 3), F(A('e'), 5)), 0, 0, 1), 'c06 c09 c05 c04 c10 tok')
    add('fn_arr_apply', F(E(4, F(A('ab'), 1)), 0, 1, 1), 'c06 c09 c05 tok')
    add('fn_trim', J(S(L('ab'), F(L('xc'), 13))), 'c15 c06')
    add('fn_delim_apply', F(DK(F(A('ab'), 0), F(A(',;'), 0)), 0, 0, 1), 'c06 c09 c13 tok')
    add('fn_filter_value', S(Z(X(F(P(A('ab')), 0), 13)), Z(A('abc'))), 'c06 c09 c10 tok')
    add('fn_filter_value5', C(X(P(F(A('ab'), 5)), 12), P(F(A('ab'), 5))), 'c06 c09 c10 c04 c05 tok')
    add('fn_filter_value3', X(S(F(A('ab'), 3), M(F(L('c'), 2))), 13), 'c06 c09 c05 tok')
    add('fn_applyfilter_value', Z(X(S(F(A('ab'), 0), I(L('-')), F(A('ab'), 5)), 13, 1)), 'c06 c09 c10 c04 tok')
    add('fn_filter_opt', S(X(M(F(S(A('ab'), L('c')), 0)), 13), Z(A('abc'))), 'c06 c09 c10 tok')
    add('fn_filter_arr', C(X(E(3, F(A('ab'), 0)), 12, 1), Z(F(A('ab'), 1))), 'c06 c09 c10 tok')
    add('fn_filter_pair', X(DK(F(A('ab'), 0), F(A(',;'), 5)), 13), 'c06 c09 c13 tok')
    add('fn_filter_choice', P(X(C(F(A('ab'), 0), F(L('c'), 5), L('d')), 13)), 'c06 c09 c14 tok')
    add('fn_filter_pass', D(X(F(P(F(A('ab'), 0)), 11, 1), 13), L(',')), 'c06 c09 c10 tok')
    add('fn_abandon', S(C(S(F(L('a'), 0), F(L('b'), 0), F(L('c'), 0)), S(F(L('a'), 1), F(L('b'), 1))), M(F(L('x'), 0))), 'c06 c10 c09 c14 c05 tok')
    add('fn_filter_reject_long', C(X(P(F(A('ab'), 5)), 2), P(F(A('ab'), 1))), 'c06 c09 c10 c04 c05 tok')
    # --- values
    add('val_tuple', S(F(A('ab'), 1), M(F(A('cd'), 1)), Z(F(A('ef'), 1)), C(F(L('g'), 1), F(L('h'), 0))), 'c09 c10 c04 c05 tok')
    add('val_tuple_copy', S(F(A('ab'), 2), M(F(A('cd'), 2)), Z(F(A('ef'), 2)), C(F(L('g'), 2), F(L('h'), 0))), 'c09 c10 c05 tok')
    add('val_tuple_tm', S(F(A('ab'), 3), M(F(A('cd'), 4)), Z(F(A('ef'), 3)), C(F(L('g'), 4), F(L('h'), 3))), 'c09 c10 c05 tok')
    add('val_tuple_body', S(F(A('ab'), 5), M(F(A('cd'), 5)), Z(F(A('ef'), 5)), C(F(L('g'), 5), F(L('h'), 0))), 'c09 c10 c04 c05 tok')
    add('val_opt_nodef', M(F(S(F(A('ab'), 0), F(A('c'), 0)), 6, 0, 1)), 'c09 c10 tok')
    add('val_unwrap', S(I(L('(')), F(P(F(A('ab'), 1)), 11), I(L(')'))), 'c09 c10 tok')
    add('val_unwrap_tm', S(I(L('(')), F(A('ab'), 4), I(L(')'))), 'c09 c10 c05 tok')
    add('val_same_choice', S(I(L('(')), C(F(L('a'), 1), F(L('ab'), 1), F(L('b'), 1)), I(L(')'))), 'c09 c10 c14 tok')
    add('val_pair', DK(P(F(A('ab'), 1)), E(2, F(A(',;'), 5))), 'c09 c13 c04 c05 tok')
    add('val_deep', M(S(E(2, M(F(A('a'), 5))), P(S(F(A('b'), 0), M(F(A('c'), 1)))))), 'c09 c04 c10 c05 tok')
    add('val_complete', CP(S(Z(F(A('ab'), 5)), M(F(L('c'), 1)))), 'c09 c10 c04 tok')
    add('val_multirep', S(Z(F(A('a'), 1)), Z(F(A('b'), 5)), Z(F(A('c'), 3)), M(F(L('d'), 0))), 'c09 c04 c05 c12 tok')
    # --- backtracking
    add('bt_seq', S(F(L('a'), 0), P(F(A('bc'), 1)), F(L('d'), 5)), 'c10 c09 c04 c05 tok')
    add('bt_maybe', S(M(S(F(L('a'), 0), F(L('b'), 0), F(L('c'), 0))), Z(F(A('abc'), 1))), 'c10 c09 c06 c05 tok')
    add('bt_rep', S(Z(S(F(L('a'), 0), F(L('b'), 1))), M(F(L('a'), 0)), Z(A('bc'))), 'c10 c09 c13 c05 tok')
    add('bt_delim', S(D(S(F(A('ab'), 0), L('!')), L(',')), M(L(',')), Z(F(A('ab'), 0))), 'c10 c09 c13 tok')
    add('bt_exact', C(E(3, F(A('ab'), 5)), E(2, F(A('ab'), 1)), F(A('ab'), 0)), 'c10 c09 c14 c04 c05 tok')
    add('bt_join', C(J(S(L('a'), I(L('-')), L('b'))), J(S(L('a'), L('-'))), L('a')), 'c10 c15 c14')
    add('bt_complete', C(CP(P(F(A('ab'), 0))), P(F(A('abc'), 1))), 'c10 c09 c14 c04 tok')
    add('bt_filter', S(C(X(P(F(A('ab'), 0)), 2), X(P(F(A('ab'), 1)), 2), I(P(A('ab')))), M(L('c'))), 'c10 c09 c06 tok')
    add('bt_exact_fail', E(5, S(F(A('ab'), 1), L('-'))), 'c10 c09 c13 tok')
    add('bt_voidseq', C(S(I(L('ab')), I(L('cd'))), I(L('abc')), I(L('a'))), 'c10 c02 c07')
    add('bt_lit', C(L('abcabcabd'), L('abcabc'), L('ab')), 'c10 c14 c03 c02')
    # --- join
    add('jn_star', S(J(Z(L('ab'))), M(L('a'))), 'c15 c03 c07 c02 c13', style='raw')
    add('jn_plus', S(J(P(L('ab'))), M(L('a'))), 'c15 c03 c07 c02 c13', style='raw')
    add('jn_maybe', S(J(M(L('ab'))), M(L('a'))), 'c15 c03 c07 c02', style='raw')
    add('jn_exact', S(J(E(3, L('ab'))), M(L('a'))), 'c15 c03 c07 c02 c10 c13', style='raw')
    add('jn_star_any', S(J(Z(A('ab'))), M(L('c'))), 'c15 c03 c02')
    add('jn_plus_none', S(J(P(N('ab'))), M(L('a'))), 'c15 c03 c02')
    add('jn_exact_none', S(J(E(4, N('ab'))), Z(L('c'))), 'c15 c03 c10')
    add('jn_any_basic', J(S(ANY, P(ANY))), 'c15 c03')
    add('jn_tuple', J(S(M(L('a')), Z(L('bc')), E(2, M(A('de'))), P(L('f')))), 'c15 c02 c04')
    add('jn_gap', J(S(M(L('a')), I(Z(L('-'))), Z(L('b')))), 'c15 c02 c10')
    add('jn_gap_rep', J(P(S(A('ab'), I(M(L('-')))))), 'c15 c10')
    add('jn_gap_delim', S(J(D(P(A('ab')), L(','))), Z(A(',ab'))), 'c15 c10')
    add('jn_gap_exact', J(E(3, S(A('ab'), I(M(L('.')))))), 'c15 c10')
    add('jn_lead_trail', S(J(S(I(Z(L(' '))), P(A('ab')), I(Z(L(' '))))), M(L('c'))), 'c15 c02')
    add('jn_opt_mid', J(S(L('a'), M(L('b')), I(M(L('-'))), M(L('c')))), 'c15 c10')
    add('jn_nested', J(S(J(P(L('a'))), M(J(S(L('b'), I(M(L('-'))), L('c')))))), 'c15 c10')
    add('jn_vecvec', J(P(S(P(L('a')), M(L('b'))))), 'c15 c04')
    add('jn_choice', J(P(C(L('a'), L('bc'), A('de')))), 'c15 c14 c02')
    add('jn_filter', S(J(S(X(P(A('ab')), 3), M(L('c')))), Z(A('abc'))), 'c15 c06 c10 c07')
    add('jn_complete', J(CP(S(P(A('ab')), M(L('c'))))), 'c15 c10')
    add('jn_void_mid', J(S(L('a'), EPS, L('b'), I(Z(L('-'))))), 'c15')
    add('jn_empty', S(J(S(Z(L('a')), M(L('b')))), M(L('c'))), 'c15 c12')
    add('jn_optempty', S(J(M(J(Z(L('a'))))), M(L('b'))), 'c15 c12')
    add('jn_optempty_seq', S(J(S(M(J(Z(L('a')))), M(L('b')))), M(L('c'))), 'c15 c12')
    add('jn_optempty_mid', S(J(S(L('a'), M(J(M(L('b')))), L('c'), M(J(S(M(L('d')), Z(L('e'))))))), M(L('f'))), 'c15')
    add('jn_gap_empty', S(J(S(P(L('a')), I(M(L('-'))), M(J(Z(L('b')))))), M(L('c'))), 'c15 c10')
    add('jn_empty_gap', S(J(S(J(Z(L('b'))), I(M(L('-'))), P(L('a')), I(M(L('-'))), J(Z(L('b'))))), M(L('c'))), 'c15 c10')
    add('jn_star_optempty', S(J(P(S(M(J(Z(L('a')))), L('b')))), M(L('c'))), 'c15 c13')
    add('jn_name', J(NM(P(NM(L('ab'), 'x')), 'y')), 'c15')
    add('jn_trim', J(S(F(L('ab'), 13), L('c'), F(L('de'), 13))), 'c15 c06')
    # --- lookahead
    add('la_all', S(C(F(L('ab'), 0), X(F(L('a'), 1), 2)), Z(F(A('cd'), 5)), M(J(S(L('e'), I(L('-')), L('f')))), D(F(L('g'), 0), F(L(','), 10))), 'c07 c06 tok')
    add('la_into', P(F(S(A('ab'), F(A('cd'), 35)), 30, 0, 1)), 'c07 tok')
    add('la_void', S(Z(F(L('a'), 10)), E(2, F(M(L('b')), 10)), X(I(L('c')), 1)), 'c07')
    add('la_complete', CP(S(P(X(F(A('ab'), 0), 1)), M(J(S(L('c'), I(L('-')), L('d')))))), 'c07 tok')
    add('la_nested', I(C(S(F(P(L('a')), 0), L('b')), F(P(L('a')), 0))), 'c07 c06')
    add('la_ignore_in', S(I(D(F(A('ab'), 5), F(L(','), 5))), F(M(L('c')), 0)), 'c07 c06 c04 tok')
    add('la_exact', E(3, I(F(A('ab'), 0))), 'c07')
    add('la_delimk', DK(F(A('ab'), 0), X(F(A(',;'), 1), 1)), 'c07 c13 tok')
    # --- recursion
    tok0 = [('tok', 0)]
    add('rec_paren', R(0), 'c11 c08 c04 c05 c09 tok', recs=[F(C(F(A('ab'), 0), S(I(L('(')), CP(R(0)), I(L(')')))), 0)], rectypes=tok0)
    add('rec_list', R(0), 'c11 c01 c02 c04 c05 c09 c10 c12 c06 tok', recs=[F(C(F(J(P(A('ab'))), 0), S(I(L('[')), M(D(R(0), L(','))), I(L(']')))), 0)], rectypes=tok0)
    add('rec_move', S(R(0), M(L('!'))), 'c11 c09 c05 c10 tok', recs=[F(C(S(I(L('(')), Z(R(0)), I(L(')'))), F(A('ab'), 1)), 1)], rectypes=[('tok', 1)])
    add('rec_mutual', R(0), 'c11 c01 c10 c06 tok', recs=[F(C(S(I(L('(')), F(R(1), 0), I(L(')'))), F(A('a'), 0)), 0), F(D(C(X(R(0), 3), F(L('b'), 0)), L('+')), 0)], rectypes=tok0 * 2)
    add('rec_expr', CP(R(0)), 'c11 c02 c05 c09 c10 c13 tok', recs=[F(D(F(D(C(F(A('01'), 0), S(I(L('(')), R(0), I(L(')')))), L('*')), 0), L('+')), 0)], rectypes=tok0)
    add('rec_body', R(0), 'c11 c04 c09 tok', recs=[F(S(I(L('<')), Z(C(F(R(0), 11, 1), F(N('<>'), 5))), I(L('>'))), 5)], rectypes=[('tok', 5)])
    add('rec_right', R(0), 'c11 c08 tok', recs=[F(C(S(F(A('ab'), 0), CP(R(0))), F(L('.'), 0)), 0)], rectypes=tok0)
    add('rec_ign', S(I(R(0)), M(L('!'))), 'c11 c07', recs=[F(S(I(L('(')), Z(R(0)), I(L(')'))), 0)], rectypes=tok0)
    add('rec_json', R(0), 'c11 c01 c02 c04 c12 c10 tok', recs=[
        F(C(F(L('null'), 0), F(L('true'), 0), F(J(S(M(L('-')), P(A('0123456789')))), 5), F(S(I(L('q')), J(Z(N('q'))), I(L('q'))), 0),
            S(I(L('[')), F(M(D(R(0), L(','))), 0), I(L(']'))), S(I(L('{')), F(M(D(R(1), L(','))), 0), I(L('}')))), 0),
        F(S(I(L('q')), J(Z(N('q'))), I(L('q')), I(L(':')), R(0)), 0, 0, 1)], rectypes=[('tok', 0), ('tok', 0)])
    return g

# ---------------------------------------------------------------- every operator around every kind of element
def elements():
    return {
        'plain': A('ab'), 'word': L('ab'), 'not': N('c'), 'any': ANY, 'void': I(L('ab')), 'void1': I(A('ab')), 'voidfn': F(A('ab'), 10), 'voidfn2': F(S(A('ab'), M(L('c'))), 10),
        'tok': F(L('ab'), 0), 'move': F(A('ab'), 1), 'copy': F(A('ab'), 2), 'tmove': F(A('ab'), 3), 'tmoveonly': F(A('ab'), 4), 'body': F(A('ab'), 5), 'nodef': F(A('ab'), 6),
        'filtered': X(F(A('ab'), 0), 3), 'filteredval': X(F(S(A('ab'), M(L('c'))), 5), 13), 'voidfilter': X(I(A('ab')), 3), 'never': C(X(L('ab'), 1), L('a')), 'neverfn': C(X(F(L('ab'), 0), 1), F(L('a'), 0)),
        'opt': M(L('ab')), 'optfn': M(F(A('ab'), 0)), 'star': Z(L('ab')), 'starfn': Z(F(A('ab'), 5)), 'plus': P(F(A('ab'), 1)), 'plusvoid': P(I(A('ab'))), 'voidstar': I(Z(A('ab'))), 'optvoidfn': M(F(A('ab'), 10)),
        'choice': C(S(L('a'), L('b')), L('a')), 'choicefn': C(F(S(L('a'), L('b')), 0), F(L('a'), 1)), 'choicesame': C(F(S(L('a'), L('b')), 0), F(L('a'), 0)), 'choicevoid': C(I(L('ab')), I(L('a'))),
        'tuple': S(F(A('ab'), 0), I(L('-')), F(A('ab'), 5)), 'one': S(I(L('(')), F(A('ab'), 1), I(L(')'))), 'torn': S(I(L('a')), I(L('-')), I(L('b'))), 'arr': E(2, F(A('ab'), 5)), 'arrvoid': E(2, I(L('a'))),
        'join': J(P(A('ab'))), 'joinnone': J(Z(L('ab'))), 'joinopt': M(J(M(L('ab')))), 'joinfail': J(S(A('ab'), I(M(L('-'))), M(A('ab')))), 'pair': DK(F(A('ab'), 0), F(A(',;'), 1)), 'list': D(F(A('ab'), 0), L(',')), 'listvoid': D(F(A('ab'), 10), L(',')),
        'neverthen': S(C(X(L('ab'), 1), L('a')), L('b')), 'gapthen': S(C(J(S(L('a'), I(M(L('-'))), L('b'))), L('a')), L('-')), 'halfthen': S(C(X(F(L('ab'), 0), 2), F(A('ab'), 0)), M(L('b'))),
        'pass': F(F(A('ab'), 1), 11), 'chain': F(F(L('ab'), 0), 0), 'into': F(L('ab'), 30), 'intomove': F(F(A('ab'), 1), 31, 0), 'const': F(F(A('ab'), 0), 20), 'complete': CP(F(P(A('ab')), 0)), 'empty': EPS, 'emptyword': L(''), 'name': NM(F(A('ab'), 0)),
        'voidtok': F(I(A('ab')), 0), 'voidint': F(I(L('a')), 12), 'int': F(A('ab'), 12), 'const2': F(I(A('ab')), 20), 'trim': F(J(P(A('ab'))), 13), 'string': F(P(A('ab')), 40), 'ints': F(A('ab'), 41), 'optint': F(A('ab'), 42), 'tupint': F(A('ab'), 43), 'unique': F(A('ab'), 44), 'bool': F(L('ab'), 45),
        'arrint': F(A('ab'), 46), 'pairint': F(A('ab'), 47), 'varint': F(A('ab'), 48), 'tokvec': F(A('ab'), 49), 'toktup': F(A('ab'), 50),
        'custom': NM(F(A('ab'), 0), '@'), 'customvoid': NM(I(L('ab')), '@'), 'customplain': NM(L('ab'), '@'), 'customvec': NM(P(F(A('ab'), 1)), '@'), 'customopt': NM(M(L('ab')), '@'), 'conv': F(F(A('ab'), 0), 30, 9), 'convmove': F(F(A('ab'), 1), 31, 9), 'convspan': F(L('ab'), 30, 9), 'convopt': F(M(L('ab')), 33, 9), 'convvec': F(P(F(A('ab'), 5)), 35, 9), 'convchoice': F(C(F(S(L('a'), L('b')), 0), F(L('a'), 1)), 30, 9), 'convtup': F(S(A('ab'), M(F(L('c'), 0))), 30, 9),
    }
def operators():
    end = lambda p: S(p, Z(A('ab,-')))
    return {
        'maybe': M, 'exactly': lambda p: E(2, p), 'exactly1': lambda p: E(1, p), 'exactly7': lambda p: E(7, p), 'plus': P, 'star': Z, 'plus+': lambda p: end(P(p)), 'star+': lambda p: end(Z(p)),
        'delim': lambda p: D(p, L(',')), 'delim+': lambda p: end(D(p, L(','))), 'delim2': lambda p: D(L('k'), p), 'delimk': lambda p: DK(p, F(L(','), 0)), 'delimk2': lambda p: DK(F(L('k'), 0), p), 'delimkv': lambda p: DK(p, I(L(','))), 'delimkv2': lambda p: DK(I(L('k')), p),
        'ignore': I, 'complete': CP, 'complete+': lambda p: C(CP(p), Z(A('abc,-'))), 'join': J, 'joinplus': lambda p: J(P(p)), 'joinstar': lambda p: J(Z(p)), 'joinexactly': lambda p: J(E(2, p)), 'joinmaybe': lambda p: J(M(p)), 'joinseq': lambda p: J(S(M(L('x')), p, M(L('y')))), 'joindelim': lambda p: J(D(p, L(','))),
        'map': lambda p: F(p, 0), 'mapval': lambda p: F(p, 0, 1), 'mapmove': lambda p: F(p, 1), 'mapvoid': lambda p: F(p, 10), 'mappass': lambda p: F(p, 11), 'apply': lambda p: F(p, 0, 0, 1), 'applyval': lambda p: F(p, 1, 1, 1), 'filter': lambda p: C(X(p, 2), I(Z(A('ab')))), 'filterval': lambda p: C(X(p, 12), I(Z(A('ab')))), 'applyfilter': lambda p: C(X(p, 2, 1), I(Z(A('ab')))), 'into': lambda p: F(p, 30), 'applyinto': lambda p: F(p, 30, 0, 1),
        'seq1': lambda p: S(p, F(L('c'), 0)), 'seq2': lambda p: S(F(L('c'), 1), p), 'seqone': lambda p: S(I(L('c')), p, I(L('d'))), 'seqfail': lambda p: C(S(p, p, L('c')), S(p, p), p), 'choice1': lambda p: C(p, F(L('a'), 0), L('b')), 'choice2': lambda p: C(S(L('a'), L('b')), p, A('ab')), 'choice3': lambda p: C(F(L('abc'), 0), S(p, L('c')), p),
        'delimopt': lambda p: D(p, M(L(','))), 'delimeps': lambda p: D(p, EPS), 'delimkopt': lambda p: DK(p, M(F(L(','), 0))), 'igndelimopt': lambda p: I(D(p, Z(A(',;')))), 'ignplus': lambda p: I(P(p)), 'ignchoice': lambda p: S(I(C(S(p, L('c')), p, L('b'))), Z(A('ab-'))), 'string': lambda p: F(p, 40), 'unique': lambda p: F(p, 44, 1), 'tokvec': lambda p: F(p, 49), 'custom': lambda p: NM(p, '@'), 'conv': lambda p: F(p, 30, 9), 'convalt': lambda p: C(F(p, 30, 9), A('ab'), F(ANY, 0)),
        'name': NM, 'optseq': lambda p: S(M(S(p, L('!'))), Z(A('ab-'))), 'twice': lambda p: S(p, p, M(p)),
    }
REPS = ('exactly', 'exactly1', 'exactly7', 'plus', 'star', 'plus+', 'star+', 'delim', 'delim+', 'delim2', 'delimk', 'delimk2', 'delimkv', 'delimkv2', 'delimopt', 'delimeps', 'delimkopt', 'igndelimopt', 'ignplus')
FNELEM = ('voidfn', 'voidfn2', 'tok', 'move', 'copy', 'tmove', 'tmoveonly', 'body', 'nodef', 'filtered', 'filteredval', 'voidfilter', 'never', 'neverfn', 'optfn', 'starfn', 'plus', 'optvoidfn', 'choicefn', 'choicesame', 'tuple', 'one', 'arr', 'pair', 'list', 'listvoid', 'pass', 'chain', 'into', 'intomove', 'complete', 'name', 'const', 'voidtok', 'voidint', 'int', 'const2', 'trim', 'string', 'ints', 'optint', 'tupint', 'unique', 'bool', 'arrint', 'pairint', 'varint', 'tokvec', 'toktup', 'custom', 'customvec', 'conv', 'convmove', 'convspan', 'convopt', 'convvec', 'convchoice', 'convtup')
FNOPS = ('conv', 'convalt', 'string', 'unique', 'tokvec', 'map', 'mapval', 'mapmove', 'mapvoid', 'mappass', 'apply', 'applyval', 'filter', 'filterval', 'applyfilter', 'into', 'applyinto')
TOKELEM = tuple(e for e in FNELEM if e not in ('voidfn', 'voidfn2', 'voidfilter', 'optvoidfn', 'listvoid', 'never', 'const', 'voidint', 'int', 'const2', 'trim', 'string', 'ints', 'optint', 'tupint', 'unique', 'bool', 'arrint', 'pairint', 'varint'))
NULLELEM = ('customopt', 'convopt', 'joinnone', 'joinopt', 'opt', 'optfn', 'star', 'starfn', 'voidstar', 'optvoidfn', 'empty', 'emptyword', 'voidfilter', 'choice')
VECELEM = ('string', 'ints', 'unique', 'tokvec', 'body', 'starfn', 'plus', 'pair', 'list', 'arr', 'tuple', 'filteredval')
KINDS = {'convmove': 'conv', 'customplain': 'span', 'customvoid': 'void', 'customvec': 'vec', 'convvec': 'convopt', 'convtup': 'convopt', 'plain': 'span', 'word': 'span', 'not': 'span', 'any': 'span', 'void1': 'void', 'voidfn2': 'voidfn', 'copy': 'tok', 'body': 'tok', 'chain': 'tok', 'into': 'tok', 'name': 'tok', 'pass': 'move', 'intomove': 'move', 'one': 'move', 'tmoveonly': 'tmove',
         'filteredval': 'filtered', 'neverfn': 'never', 'star': 'opt', 'joinopt': 'joinnone', 'optfn': 'opt', 'starfn': 'vec', 'plus': 'vec', 'list': 'vec', 'arr': 'vec', 'choicefn': 'choice', 'choicesame': 'choice', 'voidstar': 'plusvoid', 'torn': 'void', 'arrvoid': 'void', 'listvoid': 'voidfn', 'optvoidfn': 'voidfn', 'const2': 'voidint', 'optint': 'int', 'bool': 'int', 'varint': 'tupint', 'pairint': 'tupint'}
def relevant(prop, o, e):
    fn = e in FNELEM or o in FNOPS
    return {
        'C04': e in VECELEM or o in REPS, 'C05': fn, 'C06': fn, 'C07': fn or o.startswith('join') or 'join' in e, 'C08': e in NULLELEM or o in ('plus', 'star'), 'C09': e in TOKELEM, 'C11': fn,
        'C13': o in REPS or o in ('joinplus', 'joinstar', 'joinexactly'), 'C14': o.startswith('choice') or o.startswith('filter') or o == 'seqfail' or 'choice' in e or 'never' in e, 'C15': o.startswith('join') or 'join' in e,
    }.get(prop, True)

def pairs(prop, rng, limit, per=4):
    el, op = elements(), operators()
    todo = [(o, e) for o in op for e in el if relevant(prop, o, e)]
    rng.shuffle(todo)
    # one of every operator and kind of element first
    seen, first, rest = set(), [], []
    for o, e in todo:
        k = (o, KINDS.get(e, e))
        (rest if k in seen else first).append((o, e))
        seen.add(k)
    todo = first + rest
    out, pack = [], []
    def flush():
        if not pack: return
        alts = [S(I(L(chr(48 + i))), p) for i, (_, p) in enumerate(pack)]
        n = C(*alts) if len(alts) > 1 else alts[0]
        try: ty(n, None)
        except Bad:
            if len(pack) == 1: return
            both = list(pack)
            for x in both:
                pack[:] = [x]
                flush()
            return
        out.append(('+'.join(x for x, _ in pack), n))
    for o, e in todo:
        if sum(len(x[0].split('+')) for x in out) + len(pack) >= limit: break
        try:
            n = op[o](el[e])
            ty(n, None)
            if nullable(n, []) and o == 'name' and False: continue
        except (Bad, KeyError, TypeError):
            continue
        pack.append((o + '(' + e + ')', n))
        if len(pack) == per: flush(); pack = []
    flush()
    return out

# ---------------------------------------------------------------- ways of writing the same parser
DROP = lambda p: F(p, 14)

def packed(name, items, wrap=lambda p: p):
    """Several small parsers in one, told apart by the first element."""
    code = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    return name, C(*[S(I(L(code[i])), wrap(p)) for i, p in enumerate(items)])

def symset(rng, alpha):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 14, len(alpha)])
    return tuple(sorted(rng.sample(alpha, min(n, len(alpha)))))

ALPHAS = {'char': [list(range(97, 103)), list(range(97, 123)), list(range(48, 123)), list(range(120, 136)) + [0, 255, 200]], 'wchar': [list(range(97, 104)), [97, 98, 0x161, 0x162, 0x10061, 0x10062, 0]], 'c16': [[97, 98, 99, 0x161, 0x2061, 0xff61, 0xd800, 0]], 'c8': [list(range(97, 104)) + [0, 127, 128, 255]], 'c32': [[97, 98, 0x161, 0x10061, 0x10062, 0x1f600]]}

def setpart(rng, alpha, depth):
    x = rng.random()
    if depth <= 0 or x < 0.25: return (rng.choice(['any', 'none']), symset(rng, alpha))
    if x < 0.45: return NOT(setpart(rng, alpha, depth - 1))
    return C(*[setpart(rng, alpha, depth - 1 - (rng.random() < 0.5)) for _ in range(rng.choice([2, 2, 3]))])

def written(rng, alpha, depth):
    """An expression of operators only, of the kind that gets simplified."""
    sub = lambda: written(rng, alpha, depth - 1 - (rng.random() < 0.25))
    x = rng.random()
    word = lambda n: ('all', tuple(rng.choice(alpha[:3]) for _ in range(n)))
    if depth <= 0 or x < 0.1: return rng.choice([word(1), word(2), ('any', symset(rng, alpha[:4])), ('none', symset(rng, alpha[:4])), word(rng.choice([0, 1, 3, 7]))])
    if x < 0.25: return S(*[word(rng.choice([0, 1, 1, 2, 3])) if rng.random() < 0.6 else sub() for _ in range(rng.choice([2, 3, 3, 4]))])
    if x < 0.35: return S(sub(), S(sub(), sub()))
    if x < 0.45:
        p = sub()
        return C(p, p) if rng.random() < 0.6 else C(C(p, sub()), C(p, sub()))
    if x < 0.55:
        a, b, c = sub(), sub(), sub()
        return rng.choice([C(C(a, b), C(a, b)), C(C(a, b), c), C(a, C(b, c)), C(C(a, b), C(b, a)), C(a, C(a, b)), C(C(a, b), b)])
    if x < 0.62: return C(*[sub() for _ in range(rng.choice([2, 3, 4]))])
    if x < 0.68: return C(setpart(rng, alpha[:4], 1), setpart(rng, alpha[:4], 1))
    if x < 0.71: return C(sub(), EPS)
    f = lambda: rng.choice([M, P, Z])
    p = sub()
    for _ in range(rng.choice([1, 2, 2, 3])): p = f()(p)
    if rng.random() < 0.2: p = S(p, word(1))
    return p

def nearby(rng, alpha):
    """A few operators over very few different parts, so that the parts meet again."""
    few = [rng.choice([('all', (x,)), ('any', (x,)), ('none', (x,)), ('all', (x, x)), ('all', (x, y)), ('any', (x, y)), ('none', (x, y)), EPS, EPS, L(''), ('any', ()), ('none', ())])
           for x, y in [rng.sample(alpha[:3], 2) for _ in range(rng.choice([2, 3, 3]))]]
    def un(p):
        while rng.random() < 0.3: p = rng.choice([M, P, Z])(p)
        return p
    def go(k):
        if k == 1: return un(rng.choice(few))
        i = rng.randrange(1, k)
        p = (C if rng.random() < 0.65 else S)(go(i), go(k - i))
        if rng.random() < 0.15: p = NOT(p)
        return un(p)
    p = go(rng.choice([2, 3, 3, 3, 4, 4, 5]))
    return rng.choice([M, P, Z])(p) if rng.random() < 0.3 else p

def ops_pool(rng, nsets, nexpr):
    out = []
    for i in range(nsets):
        vt = rng.choice(['char', 'char', 'char', 'wchar', 'c16', 'c8', 'c32'])
        alpha = rng.choice(ALPHAS[vt] + ALPHAS[vt][-1:] * (len(ALPHAS[vt]) - 1))
        if len(alpha) > 9 and rng.random() < 0.6: alpha = rng.sample(alpha, rng.choice([4, 6, 9]))
        name, n = packed('sets%d' % i, [setpart(rng, alpha, rng.choice([1, 1, 2, 3])) for _ in range(24)], DROP)
        out.append((name, n, dict(vt=vt)))
    for i in range(nexpr):
        vt = rng.choice(['char', 'char', 'char', 'char', 'wchar', 'c16', 'c32'])
        alpha = rng.choice([[97, 98], [97, 98, 99], [97, 98, 99, 100]]) if vt == 'char' or rng.random() < 0.5 else ALPHAS[vt][-1]
        items = []
        while len(items) < 10:
            e = written(rng, alpha, rng.choice([2, 2, 3, 4])) if rng.random() < 0.5 else nearby(rng, alpha)
            if sum(1 for _ in walk(e)) > 30: continue
            try: ty(plain(e)); ty(normalise(e))
            except (Bad, KeyError): continue
            items.append(DROP(e))
        name, n = packed('expr%d' % i, items)
        out.append((name, n, dict(vt=vt)))
    # long literals, and many alternatives
    for i, k in enumerate((9, 17, 40)):
        out.append(('longword%d' % k, S(I(L('0')), DROP(S(*[('all', tuple(rng.choice((97, 98)) for _ in range(rng.choice((1, 1, 2, 5))))) for _ in range(k)]))), {}))
        out.append(('longchoice%d' % k, S(I(L('0')), DROP(C(*[rng.choice([('all', (97 + j % 5, 97 + j % 3)), ('any', (97 + j % 7, 110 + j % 4))]) for j in range(k)]))), {}))
    return out

MODS = ['map', 'apply', 'mapvoid', 'pass', 'const', 'into', 'filter', 'exactly', 'delim', 'delimk', 'name', 'ignore', 'complete', 'join', 'sub']

def mod_leaf(rng, t, textual_ok=True, kind=None):
    """A modifier that fits a parser of this type."""
    for _ in range(30):
        if kind == 'sub': return ('subst', [HOLE, mod_leaf(rng, None)], [(rng.choice(['x', 'y']), 1)])
        if t == 'sub' and rng.random() < 0.15: return ('subst', [HOLE, mod_leaf(rng, None)], [(rng.choice(['x', 'y']), 1)])
        k = rng.choice(['map', 'map', 'map', 'filter', 'filter', 'exactly', 'delim', 'delimk', 'ignore', 'complete', 'join', 'name', 'name' if t else 'map', 'apply', 'into', 'const', 'mapvoid', 'pass'])
        if kind: k = kind
        if k == 'map': n = F(HOLE, rng.choice([0, 0, 1, 2, 3, 5]), rng.choice([0, 0, 1, 2]))
        elif k == 'apply': n = F(HOLE, rng.choice([0, 1, 5]), rng.choice([0, 1]), 1)
        elif k == 'mapvoid': n = F(HOLE, 10)
        elif k == 'pass': n = F(HOLE, 11)
        elif k == 'const': n = F(HOLE, rng.choice([20, 21]))
        elif k == 'into': n = F(HOLE, rng.choice([30, 30, 31, 35]), 0, rng.randrange(2))
        elif k == 'filter': n = X(HOLE, rng.choice([0, 2, 3, 3, 13]), int(rng.random() < 0.3))
        elif k == 'exactly': n = E(rng.choice([1, 2, 2, 3]), HOLE)
        elif k == 'delim': n = D(HOLE, rng.choice([L(','), F(A(',;'), 0), M(L(','))]))
        elif k == 'delimk': n = DK(HOLE, rng.choice([L(','), F(A(',;'), 1), I(L(','))]))
        elif k == 'name': n = NM(HOLE, rng.choice(['x', 'y']))
        else: n = {'ignore': I, 'complete': CP, 'join': J}[k](HOLE)
        if kind: return n
        if k == 'complete' and rng.random() < 0.6 or k == 'ignore' and rng.random() < 0.5: continue
        return n
    return I(HOLE)

def assoc(rng, ids):
    if len(ids) == 1: return ids[0]
    k = rng.randrange(1, len(ids))
    return (assoc(rng, ids[:k]), assoc(rng, ids[k:]))

BASES = [A('ab'), L('ab'), N('c,'), I(L('a')), F(A('ab'), 0), F(L('a'), 1), F(A('ab'), 5), S(A('ab'), F(L('c'), 0)), S(F(A('ab'), 1), F(A('cd'), 0)), C(L('ab'), F(A('ab'), 0)), M(L('ab')), P(A('ab')), P(F(A('ab'), 0)), J(P(A('ab'))), E(2, F(A('ab'), 0)), EPS]

def fits(n):
    try: ty(normalise(n)); return True
    except Bad: return False

def chain(rng, length):
    while True:
        p = rng.choice(BASES)
        ks = [p]
        for _ in range(length):
            for i in range(20):
                m = mod_leaf(rng, 'sub')
                if len(ks) > 1 and ks[-1][0] in ('exactly', 'delim', 'delimk', 'name') and i < 3 and rng.random() < 0.4: m = ks[-1]   # the same once more
                if fits(('chain', ks + [m], assoc(rng, list(range(1, len(ks) + 1))))): ks.append(m); break
        if len(ks) > 1: return ('chain', ks, assoc(rng, list(range(1, len(ks)))))

def tail(p): return S(p, I(Z(A('ab,;c'))))

def mod_pairs(rng, per=8):
    """Every two kinds of modifiers next to each other, put together before they meet the parser."""
    todo = []
    for k1 in MODS:
        for k2 in MODS * (4 if k1 == 'name' else 1):
            for attempt in range(60):
                m1 = mod_leaf(rng, 'sub', kind=k1)
                m2 = m1 if k1 == k2 and attempt < 30 and rng.random() < 0.5 else mod_leaf(rng, 'sub', kind=k2)
                ks, tree = [rng.choice(BASES), m1, m2], (1, 2)
                if 'sub' in (k1, k2): ks[0] = NM(ks[0], rng.choice('xy'))
                if 'name' in (k1, k2):
                    # something that finds the names
                    which = rng.choice([[ 'x'], ['y'], ['x', 'y']])
                    for nm in which:
                        ks.append(('subst', [HOLE, mod_leaf(rng, None)], [(nm, 1)]))
                        tree = (tree, len(ks) - 1)
                elif rng.random() < 0.3:
                    ks.append(mod_leaf(rng, 'sub'))
                    tree = assoc(rng, [1, 2, 3])
                n = ('chain', ks, tree)
                if fits(n):
                    if rng.random() < 0.3 and fits(tail(n)): n = tail(n)
                    todo.append(n)
                    break
    # two names next to each other: both are found
    for a, b in (('x', 'y'), ('y', 'x'), ('x', 'y'), ('x', 'x')):
        for found in {a, b}:
            for m in (E(2, HOLE), F(HOLE, 10), D(HOLE, L(',')), F(HOLE, 30)):
                base = rng.choice([A('ab'), L('ab'), F(A('ab'), 0), S(A('ab'), F(L('c'), 0)), P(A('ab'))])
                todo.append(('chain', [base, NM(HOLE, a), NM(HOLE, b), ('subst', [HOLE, m], [(found, 1)])], ((1, 2), 3)))
    out = []
    rng.shuffle(todo)
    for i in range(0, len(todo), per):
        items = todo[i:i + per]
        name, root = packed('modpair%d' % (i // per), items)
        if fits(root): out.append((name, root, {}))
        else: out += [('modpair%d_%d' % (i // per, j), x, {}) for j, x in enumerate(items)]
    return out

def chains_pool(rng, n):
    out = mod_pairs(rng)
    for i in range(n):
        items = []
        while len(items) < 4:
            c = chain(rng, rng.choice([2, 2, 3, 3, 4, 5]))
            c2 = ('chain', c[1], assoc(rng, list(range(1, len(c[1])))))     # the same, associated otherwise
            for x in (c, c2):
                if rng.random() < 0.4 and fits(tail(x)): x = tail(x)
                items.append(x)
        name, root = packed('chain%d' % i, items)
        if fits(root): out.append((name, root, {}))
        else: out += [('chain%d_%d' % (i, j), x, {}) for j, x in enumerate(items)]
    return out

def with_names(rng, n, names):
    """Names put on parts of a grammar."""
    ks = [with_names(rng, x, names) for x in kids(n)]
    n = rebuild(n, ks)
    while rng.random() < 0.3: n = NM(n, rng.choice(names))
    return n

def subst_pool(rng, n):
    out = []
    while len(out) < n:
        r = Rand(rng, W(ignore=0.5, complete=0.3, map=2, filter=0.7), alpha='abc')
        items = []
        tries = 0
        while len(items) < 3 and tries < 400:
            tries += 1
            g = r.grammar()
            if sum(1 for _ in walk(g)) > 14: continue
            names = rng.choice([('x',), ('x', 'y'), ('x', 'xy', 'y'), ('x', 'xy'), ('xy', 'xz', 'x'), ('Item', 'item'), ('ab', 'b', 'ba'), ('a name', 'a nama', 'a nam')])
            g = with_names(rng, g, names)
            have = [y[1] for y in walk(normalise(g)) if y[0] == 'name']
            if not have: continue
            ks, subs = [g], []
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
                name = rng.choice(have) if rng.random() < 0.7 else rng.choice(names) if rng.random() < 0.6 else rng.choice(('z', 'x', 'yx', have[0][:-1] or 'q', have[0] + 'x', have[0].swapcase(), have[0][::-1]))
                ids = []
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    ks.append(mod_leaf(rng, None))
                    ids.append(len(ks) - 1)
                subs.append((name, assoc(rng, ids)))
            x = ('subst', ks, subs)
            if not fits(x): continue
            if sum(1 for _ in walk(normalise(x))) > 40: continue
            if rng.random() < 0.3 and fits(('chain', [x, F(HOLE, 0)], 1)): x = ('chain', [x, F(HOLE, 0)], 1)
            items.append(x)
        if not items: continue
        name, root = packed('subst%d' % len(out), items)
        if fits(root): out.append((name, root, {}))
        else: out += [('subst%d_%d' % (len(out), j), x, {}) for j, x in enumerate(items)]
    return out[:n]

WRITTEN = {'quick': {'C21': (24, 110), 'C22': (100,), 'C23': (110,)}, 'thorough': {'C21': (120, 800), 'C22': (800,), 'C23': (900,)}}

def written_pool(prop, rng, tier):
    make = {'C21': ops_pool, 'C22': chains_pool, 'C23': subst_pool}[prop]
    out = []
    for name, root, kw in make(rng, *WRITTEN[tier][prop]):
        g = G(name, root, style='pub', aswritten=prop == 'C21', **kw)
        try: g.prepare(len(out), rng)
        except Bad: continue
        out.append(g)
    return out

WEIGHTS = {
    'C13': W(plus=5, star=5, delim=5, delimk=5, exactly=4, choice=1.5, join=0.3, complete=0.2),
    'C14': W(choice=9, plus=1, star=1, delim=0.5, delimk=0.5),
    'C15': W(join=8, plus=3, star=3, exactly=2, maybe=2, ignore=2, map=0.5, filter=0.7, choice=1.5, delim=1.5, delimk=0),
    'C06': W(map=7, filter=4, ignore=1.5),
    'C05': W(map=6, filter=2),
    'C09': W(map=6, filter=2),
    'C04': W(map=5, plus=3, star=3, delim=2, delimk=2),
    'C08': W(plus=4, star=4, delim=3, delimk=2, maybe=4, eps=1, seq=2),
    'C07': W(map=4, filter=4, join=2, ignore=2),
    'C10': W(map=3, filter=2, choice=4, maybe=3, exactly=2),
}
FOCUS = {
    'C13': {'plus', 'star', 'delim', 'delimk', 'exactly'}, 'C14': {'choice'}, 'C15': {'join'}, 'C06': {'cb'}, 'C05': {'cb'}, 'C09': {'tok'},
    'C04': {'vec', 'body'}, 'C08': {'nullrep', 'plus', 'star', 'delim', 'delimk'}, 'C07': {'cb', 'filter', 'join', 'map'}, 'C11': {'cb', 'rec'},
}
COUNTS = {'quick': (70, 45, 1000), 'thorough': (400, 300, 3000)}   # curated (of the property, then others), random, pairs

WIDE = ('C01', 'C02', 'C03', 'C04', 'C06', 'C10', 'C12')   # any grammar is of interest

def pool(prop, seed, tier):
    rng = random.Random('%s/%d/%s' % (prop, seed, tier))
    if prop in ('C21', 'C22', 'C23'): return written_pool(prop, rng, tier)
    ncur, nrand, npairs = COUNTS[tier]
    every = curated()
    rng.shuffle(every)
    cur = [x for x in every if prop.lower() in x[2]][:ncur]
    if prop in WIDE:
        cur += [x for x in every if prop.lower() not in x[2]][:ncur - len(cur)]
    out = []
    for name, root, tags, kw in cur:
        allr = kw.pop('allr', False) or prop in ('C12', 'C03') and 'doc' in tags
        out.append(G(name, root, allr=allr, **kw))
    for name, root in pairs(prop, rng, npairs):
        out.append(G('pairs:' + name, root, elems=['elem'] if prop == 'C05' and rng.random() < 0.3 else None))
    need = FOCUS.get(prop)
    r = Rand(rng, WEIGHTS.get(prop, W0), alpha='abcd')
    n = 0
    while n < nrand:
        r.alpha = rng.choice(['ab', 'abc', 'abcd', 'abcdef'])
        root = r.grammar()
        f = features(root, [])
        if need and not (f & need): continue
        x = rng.random()
        vt, el, st = 'char', None, None
        if prop in ('C05',) and x < 0.45: vt, el, st = 'char', ['elem'], None
        elif prop in ('C02', 'C03', 'C12') and x < 0.3: vt = rng.choice(['wchar', 'c8', 'c16', 'c32', 'int', 'enum', 'elem', 'uchar']); st = 'raw' if vt not in CHARS else None
        elif prop in ('C02', 'C03') and x < 0.4: el = [rng.choice(['int', 'wchar', 'elem'])]
        try:
            c = [0]
            g = G('rand%d' % n, root, vt=vt, elems=el, style=st)
            g.prepare(0, random.Random(1))
        except Bad:
            continue
        out.append(G('rand%d' % n, root, vt=vt, elems=el, style=g.style))
        n += 1
    final = []
    for i, g in enumerate(out):
        try:
            g.prepare(len(final), rng)
        except Bad as e:
            g.style = 'raw'
            g.prepare(len(final), rng)
        final.append(g)
    return final

PRE = '#include "all.h"\nnamespace t = k3::tok3n;\nnamespace d = k3::tok3n::detail;\nusing namespace k3::tok3n;\n'

def parts(grammars, per):
    order = sorted(grammars, key=lambda g: -len(g.cpp))
    n = max(1, (len(order) + per - 1) // per)
    return [order[i::n] for i in range(n)]

def unit(part):
    return PRE + 'namespace {\n' + '\n'.join(g.emit() for g in part) + '}\n'

def units(grammars, per):
    return [unit(p) for p in parts(grammars, per)]

if __name__ == '__main__':
    import sys, os
    prop, seed, tier, outdir = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    gs = pool(prop, seed, tier)
    os.makedirs(outdir, exist_ok=True)
    for i, u in enumerate(units(gs, 5)):
        open('%s/u%02d.cpp' % (outdir, i), 'w').write(u)
    print(len(gs), 'grammars')
