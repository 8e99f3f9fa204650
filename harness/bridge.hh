#ifndef VF_BRIDGE_HH
#define VF_BRIDGE_HH

// Conversions between the reference models and the library types.

#include "ref.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

namespace vf
{

template <class S> S toSimplex( Mask m, typename S::DataType d = typename S::DataType() )
{
  auto v = verts( m );
  return S( v.begin(), v.end(), d );
}

template <class S> Mask toMask( const S& s )
{
  Mask m = 0;
  for( auto v : s ) m |= Mask(1) << unsigned( v );
  return m;
}

template <class K> K toComplex( const Order& o )
{
  using S = typename K::ValueType;
  std::vector<S> s;
  for( Mask m : o ) s.push_back( toSimplex<S>( m ) );
  return K( s.begin(), s.end() );
}

template <class K, class W> K toComplex( const Order& o, W weight )
{
  using S = typename K::ValueType;
  std::vector<S> s;
  for( Mask m : o ) s.push_back( toSimplex<S>( m, weight( m ) ) );
  return K( s.begin(), s.end() );
}

template <class K> Order toOrder( const K& k )
{
  Order o;
  for( auto&& s : k ) o.push_back( toMask( s ) );
  return o;
}

template <class K> std::map<Mask, typename K::ValueType::DataType> toWeights( const K& k )
{
  std::map<Mask, typename K::ValueType::DataType> w;
  for( auto&& s : k ) w[ toMask( s ) ] = s.data();
  return w;
}

} // namespace vf

#endif
