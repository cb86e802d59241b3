"""shared by L05 and L18: the regular expression parser's tree building functions"""
from .common import *
DRIVER = r'''
#include <cstdint>
#include <lexertl/sm_traits.hpp>
#include <lexertl/parser/parser.hpp>
#include <lexertl/parser/tokeniser/re_tokeniser.hpp>
using namespace lexertl;
template<class P> void f(P& p, typename P::token_vector& v, std::uint16_t& a) { p.parse(v, a, a, a, a, a, true, a, a, true); }
template void f<detail::basic_parser<char, basic_sm_traits<char, std::uint16_t, false, false, true>>>(detail::basic_parser<char, basic_sm_traits<char, std::uint16_t, false, false, true>>&, std::vector<detail::basic_re_token<char, char>>&, std::uint16_t&);
template void f<detail::basic_parser<char, basic_sm_traits<char32_t, std::uint16_t, true, true, true>>>(detail::basic_parser<char, basic_sm_traits<char32_t, std::uint16_t, true, true, true>>&, std::vector<detail::basic_re_token<char, char32_t>>&, std::uint16_t&);
template void f<detail::basic_parser<char, basic_sm_traits<char16_t, std::uint16_t, true, true, true>>>(detail::basic_parser<char, basic_sm_traits<char16_t, std::uint16_t, true, true, true>>&, std::vector<detail::basic_re_token<char, char16_t>>&, std::uint16_t&);
template class lexertl::detail::basic_re_tokeniser<char, char, std::uint16_t>;
'''
I_, B_ = z3.IntSort(), z3.BoolSort(); AI, AB = z3.ArraySort(I_, I_), z3.ArraySort(I_, B_)
SELF = 'lexertl::detail::basic_parser<char, lexertl::basic_sm_traits<%s'
H = 'heap:_node'
def pfind(inst, name, npar=None, pred=None):
    """method of the parser instantiated for machine character type inst"""
    def f(u):
        o = [n for q, n in u.funcs if q.startswith(SELF % inst) and q.endswith('>::' + name) and (npar is None or len(params_of(n)) == npar) and (pred is None or pred(n))]
        if not o: raise ExtractError('parser::%s not found' % name)
        return o[0]
    return f
def sub(name): return lambda q, n: q.endswith('::' + name)
