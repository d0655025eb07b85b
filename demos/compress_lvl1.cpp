#include "tfhe++.hpp"
#include <iostream>
#include <memory>
using namespace TFHEpp;
int main(){
  auto sk=std::make_unique<SecretKey>();
  int bad=0; using P=lvl1param;
  for(int i=0;i<200;i++){ bool b=i&1; auto c=tlweSymEncrypt<P>(b?P::μ:-P::μ,sk->key.get<P>()); bad+= tlweSymDecrypt<P>(c,sk->key.get<P>())!=b; }
  std::cout<<"lvl1 tlwe wrong "<<bad<<"/200\n";
  bad=0; for(int i=0;i<200;i++){int m=i%P::plain_modulus; auto c=tlweSymIntEncrypt<P>(m,sk->key.get<P>()); bad+= (int)tlweSymIntDecrypt<P>(c,sk->key.get<P>())!=m;}
  std::cout<<"lvl1 int wrong "<<bad<<"/200\n";
  auto f=[&]<class Q>(const char*n){
    Polynomial<Q> p={},one={}; one[0]=1; for(auto&x:p) x=typename Q::T(1)<<(std::numeric_limits<typename Q::T>::digits-3);
    auto t=trlweSymEncrypt<Q>(p,sk->key.get<Q>()); auto g=std::make_unique<TRGSWFFT<Q>>(trgswfftSymEncrypt<Q>(one,sk->key.get<Q>()));
    TRLWE<Q> r; trgswfftExternalProduct<Q>(r,t,*g); auto ph=trlwePhase<Q>(r,sk->key.get<Q>());
    std::cout<<n<<" external product by 1: phase/2^digits "<<std::ldexp((double)(std::make_signed_t<typename Q::T>)ph[5],-std::numeric_limits<typename Q::T>::digits)<<" expected 0.125\n";};
  f.operator()<lvl1param>("lvl1"); f.operator()<lvl2param>("lvl2");
}
