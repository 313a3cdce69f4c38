// Canonical forms of the types a metaparse parser produces (used by the replayed programs only).
#include <boost/metaparse/accept.hpp>
#include <boost/metaparse/reject.hpp>
#include <boost/metaparse/source_position.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/mpl/next.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/is_sequence.hpp>
#include <boost/mpl/if.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/long.hpp>
#include <boost/mpl/size_t.hpp>
#include <boost/mpl/integral_c.hpp>
#include <boost/type_traits/integral_constant.hpp>
#include <boost/type_traits/is_same.hpp>
#if __cplusplus >= 201103L
#include <type_traits>
#endif
#include <cstdio>
#include <typeinfo>
#include <string>
#include <iostream>
#include <unistd.h>
#include <sys/wait.h>
namespace vn {
  template <class R, class S, class P> struct acc {};
  template <class M, class P> struct rej {};
  template <int L, int C, int P> struct pos {};
  template <class T, long V> struct ic {};
  template <class C> struct str {};
  template <class L> struct seq {};
  template <class H, class T> struct cons {};
  template <long H, class T> struct icons {};
  struct nil {};
  template <class T> struct has_type { typedef char y; struct n { char a[2]; }; template <class U> static y t(typename U::type*); template <class U> static n t(...); enum { value = sizeof(t<T>(0)) == 1 }; };
  template <class T> struct has_type<T&> { enum { value = 0 }; };
  template <class T, bool B, int N> struct force_ { typedef T type; };
  template <class A, class B, int N> struct force2 { typedef typename force_<B, has_type<B>::value, N - 1>::type type; };
  template <class A, int N> struct force2<A, A, N> { typedef A type; };
  template <class T, int N> struct force_<T, true, N> { typedef typename force2<T, typename T::type, N>::type type; };
  template <class T> struct force_<T, true, 0> { typedef T type; };
  template <class T> struct force { typedef typename force_<T, has_type<T>::value, 12>::type type; };
  template <class T> struct norm;
  template <class B, class E> struct walk { typedef cons<typename norm<typename boost::mpl::deref<B>::type>::type, typename walk<typename boost::mpl::next<B>::type, E>::type> type; };
  template <class E> struct walk<E, E> { typedef nil type; };
  template <class T, bool S> struct norm_seq { typedef T type; };
  template <class T> struct norm_seq<T, true> { typedef seq<typename walk<typename boost::mpl::begin<T>::type, typename boost::mpl::end<T>::type>::type> type; };
  // evaluated only for complete class types that are MPL sequences
  template <class T> struct complete_class { typedef char y; struct n { char a[2]; }; template <class U> static y t(char (*)[sizeof(U)]); template <class U> static n t(...); enum { value = sizeof(t<T>(0)) == 1 }; };
  template <class T, bool C> struct isseq { enum { value = boost::mpl::is_sequence<T>::value }; };
  template <class T> struct isseq<T, false> { enum { value = 0 }; };
  template <class T> struct norm { typedef typename norm_seq<T, isseq<T, complete_class<T>::value>::value>::type type; };
  template <class T> struct fnorm : norm<typename force<T>::type> {};
  template <> struct norm<void> { typedef void type; };
  template <class R, class S, class P> struct norm<boost::metaparse::v1::accept<R, S, P> > { typedef acc<typename norm<R>::type, typename fnorm<S>::type, typename fnorm<P>::type> type; };
  template <class M, class P> struct norm<boost::metaparse::v1::reject<M, P> > { typedef rej<typename norm<M>::type, typename fnorm<P>::type> type; };
  template <class L, class C, class P> struct norm<boost::metaparse::v1::source_position<L, C, P> > { typedef pos<L::type::value, C::type::value, P::type::value> type; };
  template <int V> struct norm<boost::mpl::int_<V> > { typedef ic<int, V> type; };
  template <long V> struct norm<boost::mpl::long_<V> > { typedef ic<long, V> type; };
  template <char V> struct norm<boost::mpl::char_<V> > { typedef ic<char, V> type; };
  template <bool V> struct norm<boost::mpl::bool_<V> > { typedef ic<bool, V> type; };
  template <std::size_t V> struct norm<boost::mpl::size_t<V> > { typedef ic<std::size_t, (long)V> type; };
  template <class T, T V> struct norm<boost::mpl::integral_c<T, V> > { typedef ic<T, (long)V> type; };
  template <class T, T V> struct norm<boost::integral_constant<T, V> > { typedef ic<T, (long)V> type; };
#if BOOST_METAPARSE_STD >= 2011
  template <class T, T V> struct norm<std::integral_constant<T, V> > { typedef ic<T, (long)V> type; };
  template <char... Cs> struct chars;
  template <> struct chars<> { typedef nil type; };
  template <char C, char... Cs> struct chars<C, Cs...> { typedef icons<C, typename chars<Cs...>::type> type; };
  template <char... Cs> struct norm<boost::metaparse::v1::string<Cs...> > { typedef str<typename chars<Cs...>::type> type; };
#else
  template <class A, class B, bool E> struct sel { typedef A type; };
  template <int C, class T> struct ccons { typedef icons<C, T> type; };
  template <class T> struct ccons<-1, T> { typedef nil type; };
  #define VN_C(z, n, u) typename vn::ccons<C##n,
  #define VN_E(z, n, u) >::type
  template <BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C)>
  struct norm<boost::metaparse::v1::string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)> >
  { typedef str<BOOST_PP_REPEAT(BOOST_METAPARSE_LIMIT_STRING_SIZE, VN_C, ~) nil BOOST_PP_REPEAT(BOOST_METAPARSE_LIMIT_STRING_SIZE, VN_E, ~) > type; };
#endif
  // uniform access to a parser's / metafunction's outcome
  template <class T> struct lazy { typedef T type; };
  template <class T> struct outcome_nf { typedef typename norm<typename T::type>::type type; };
  template <class T> struct outcome { typedef typename fnorm<T>::type type; };
  // consumption: the remaining input is a suffix and the position is advanced over what is missing
  struct yes {}; struct no {};
  template <class L, int A, int B, int C, class L2, class P2> struct walk_to { typedef no type; };
  template <int A, int B, int C, class L2, class P2> struct walk_to<L2, A, B, C, L2, P2> { typedef typename boost::mpl::if_c<boost::is_same<pos<A, B, C>, P2>::value, yes, no>::type type; };
  template <long H, class T, int A, int B, int C, class L2, class P2> struct walk_to<icons<H, T>, A, B, C, L2, P2>
    : walk_to<T, ((H == 13 || (H == 10 && C != 13)) ? A + 1 : A), ((H == 13 || (H == 10 && C != 13)) ? 1 : B + 1), (int)H, L2, P2> {};
  template <long H, class T, int A, int B, int C, class P2> struct walk_to<icons<H, T>, A, B, C, icons<H, T>, P2> { typedef typename boost::mpl::if_c<boost::is_same<pos<A, B, C>, P2>::value, yes, no>::type type; };
  template <class S, class P, class R> struct post_consumes { typedef no type; };
  template <class S, class P, class M, class Q> struct post_consumes<S, P, rej<M, Q> > { typedef yes type; };
  template <class L, int A, int B, int C, class R, class L2, class P2> struct post_consumes<str<L>, pos<A, B, C>, acc<R, str<L2>, P2> > : walk_to<L, A, B, C, L2, P2> {};
  template <class S, class P, class R> struct post_stays { typedef no type; };
  template <class S, class P, class M, class Q> struct post_stays<S, P, rej<M, Q> > { typedef yes type; };
  template <class S, class P, class R> struct post_stays<S, P, acc<R, S, P> > { typedef yes type; };
}
#define VN_CASE(n, ...) std::printf("%d %d\n", n, (int)boost::is_same<case_##n::actual, case_##n::expected>::value)
#define VN_SHOW(n) std::printf("actual   %s\nexpected %s\n", typeid(case_##n::actual*).name(), typeid(case_##n::expected*).name())
// default-constructs a T in a child process: what it wrote to standard output and how it ended
template <class T> std::string vn_capture() {
  int p[2];
  std::string r;
  std::cout.flush();
  std::fflush(stdout);
  if (pipe(p) != 0) return "[no pipe]";
  pid_t c = fork();
  if (c == 0) {
    close(p[0]); dup2(p[1], 1); close(p[1]);
    { T x; (void)x; }
    std::cout.flush();
    std::fflush(stdout);
    _exit(77);
  }
  close(p[1]);
  char b[256];
  for (ssize_t n; (n = read(p[0], b, sizeof(b))) > 0;) r.append(b, n);
  close(p[0]);
  int st = 0;
  waitpid(c, &st, 0);
  return r + (!WIFEXITED(st) ? "[crashed]" : WEXITSTATUS(st) == 0 ? "[exited]" : WEXITSTATUS(st) == 77 ? "[returned]" : "[exited with an error status]");
}
#define VN_TCASE(n, ...) std::printf("%d %d\n", n, (int)(case_##n::actual() == case_##n::expected()))
#define VN_TSHOW(n) std::printf("actual   %s\nexpected %s\n", case_##n::actual().c_str(), case_##n::expected().c_str())
