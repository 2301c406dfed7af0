_T = 'bounded exhaustive exploration of patterns x subjects on the real code against a reference model'
_N = 'Every pattern of the stated families runs on every subject of the stated length; nothing is sampled. Trusted: the reference matcher (compared with PCRE2 wherever both are defined), gcc. Beyond the size and length bounds nothing is claimed.'
NA = {}
CLAIMS = {
 'C01': (_T, _N), 'C02': (_T, _N), 'C03': (_T, _N), 'C04': (_T, _N), 'C05': (_T, _N),
 'C06': (_T, _N), 'C07': (_T, _N), 'C08': (_T, _N), 'C09': (_T, _N), 'C10': (_T, _N), 'C11': (_T, _N), 'C12': (_T, _N), 'C13': (_T, _N), 'C14': (_T, _N), 'C15': (_T, _N), 'C16': (_T, _N), 'C17': ('explicit-state exploration of the product of the real LL(1) table and the documented grammar, with conformance replay of strings on the real parser', 'All reachable product states within the bracket bound are visited; every model trace class is replayed on ctll::parser and on the matcher. Trusted: the grammar copy lib/syntax.gram (a specification), gcc. Rejections of whole patterns by static_assert are replayed by compiling a finite list.'), 'C19': (_T, _N), 'C18': (_T, _N), 'C21': (_T, _N), 'C23': (_T, _N),
}
