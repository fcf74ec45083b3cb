// typenum sums used at constant lengths 
pub mod vx_tadd { use vstd::prelude::*; use crate::vx::*;
impl TAdd<N<1>> for N<1> { type Output = N<2>; }
impl TAdd<N<2>> for N<1> { type Output = N<3>; }
impl TAdd<N<9>> for N<1> { type Output = N<10>; }
impl TAdd<N<1>> for N<2> { type Output = N<3>; }
impl TAdd<N<2>> for N<2> { type Output = N<4>; }
impl TAdd<N<9>> for N<2> { type Output = N<11>; }
impl TAdd<N<1>> for N<3> { type Output = N<4>; }
impl TAdd<N<2>> for N<3> { type Output = N<5>; }
impl TAdd<N<9>> for N<3> { type Output = N<12>; }
impl TAdd<N<1>> for N<4> { type Output = N<5>; }
impl TAdd<N<2>> for N<4> { type Output = N<6>; }
impl TAdd<N<9>> for N<4> { type Output = N<13>; }
impl TAdd<N<1>> for N<5> { type Output = N<6>; }
impl TAdd<N<2>> for N<5> { type Output = N<7>; }
impl TAdd<N<9>> for N<5> { type Output = N<14>; }
impl TAdd<N<1>> for N<6> { type Output = N<7>; }
impl TAdd<N<2>> for N<6> { type Output = N<8>; }
impl TAdd<N<9>> for N<6> { type Output = N<15>; }
impl TAdd<N<1>> for N<7> { type Output = N<8>; }
impl TAdd<N<2>> for N<7> { type Output = N<9>; }
impl TAdd<N<9>> for N<7> { type Output = N<16>; }
impl TAdd<N<1>> for N<8> { type Output = N<9>; }
impl TAdd<N<2>> for N<8> { type Output = N<10>; }
impl TAdd<N<9>> for N<8> { type Output = N<17>; }
impl TAdd<N<1>> for N<9> { type Output = N<10>; }
impl TAdd<N<2>> for N<9> { type Output = N<11>; }
impl TAdd<N<9>> for N<9> { type Output = N<18>; }
impl TAdd<N<1>> for N<10> { type Output = N<11>; }
impl TAdd<N<2>> for N<10> { type Output = N<12>; }
impl TAdd<N<9>> for N<10> { type Output = N<19>; }
impl TAdd<N<1>> for N<11> { type Output = N<12>; }
impl TAdd<N<2>> for N<11> { type Output = N<13>; }
impl TAdd<N<9>> for N<11> { type Output = N<20>; }
impl TAdd<N<1>> for N<12> { type Output = N<13>; }
impl TAdd<N<2>> for N<12> { type Output = N<14>; }
impl TAdd<N<9>> for N<12> { type Output = N<21>; }
impl TAdd<N<1>> for N<13> { type Output = N<14>; }
impl TAdd<N<2>> for N<13> { type Output = N<15>; }
impl TAdd<N<9>> for N<13> { type Output = N<22>; }
impl TAdd<N<1>> for N<14> { type Output = N<15>; }
impl TAdd<N<2>> for N<14> { type Output = N<16>; }
impl TAdd<N<9>> for N<14> { type Output = N<23>; }
impl TAdd<N<1>> for N<15> { type Output = N<16>; }
impl TAdd<N<2>> for N<15> { type Output = N<17>; }
impl TAdd<N<9>> for N<15> { type Output = N<24>; }
impl TAdd<N<1>> for N<16> { type Output = N<17>; }
impl TAdd<N<2>> for N<16> { type Output = N<18>; }
impl TAdd<N<9>> for N<16> { type Output = N<25>; }
impl TAdd<N<1>> for N<17> { type Output = N<18>; }
impl TAdd<N<2>> for N<17> { type Output = N<19>; }
impl TAdd<N<9>> for N<17> { type Output = N<26>; }
impl TAdd<N<1>> for N<18> { type Output = N<19>; }
impl TAdd<N<2>> for N<18> { type Output = N<20>; }
impl TAdd<N<9>> for N<18> { type Output = N<27>; }
impl TAdd<N<1>> for N<19> { type Output = N<20>; }
impl TAdd<N<2>> for N<19> { type Output = N<21>; }
impl TAdd<N<9>> for N<19> { type Output = N<28>; }
impl TAdd<N<1>> for N<20> { type Output = N<21>; }
impl TAdd<N<2>> for N<20> { type Output = N<22>; }
impl TAdd<N<9>> for N<20> { type Output = N<29>; }
impl TAdd<N<1>> for N<21> { type Output = N<22>; }
impl TAdd<N<2>> for N<21> { type Output = N<23>; }
impl TAdd<N<9>> for N<21> { type Output = N<30>; }
impl TAdd<N<1>> for N<22> { type Output = N<23>; }
impl TAdd<N<2>> for N<22> { type Output = N<24>; }
impl TAdd<N<9>> for N<22> { type Output = N<31>; }
impl TAdd<N<1>> for N<23> { type Output = N<24>; }
impl TAdd<N<2>> for N<23> { type Output = N<25>; }
impl TAdd<N<9>> for N<23> { type Output = N<32>; }
impl TAdd<N<1>> for N<24> { type Output = N<25>; }
impl TAdd<N<2>> for N<24> { type Output = N<26>; }
impl TAdd<N<9>> for N<24> { type Output = N<33>; }
impl TAdd<N<1>> for N<25> { type Output = N<26>; }
impl TAdd<N<2>> for N<25> { type Output = N<27>; }
impl TAdd<N<9>> for N<25> { type Output = N<34>; }
impl TAdd<N<1>> for N<26> { type Output = N<27>; }
impl TAdd<N<2>> for N<26> { type Output = N<28>; }
impl TAdd<N<9>> for N<26> { type Output = N<35>; }
impl TAdd<N<1>> for N<27> { type Output = N<28>; }
impl TAdd<N<2>> for N<27> { type Output = N<29>; }
impl TAdd<N<9>> for N<27> { type Output = N<36>; }
impl TAdd<N<1>> for N<28> { type Output = N<29>; }
impl TAdd<N<2>> for N<28> { type Output = N<30>; }
impl TAdd<N<9>> for N<28> { type Output = N<37>; }
impl TAdd<N<1>> for N<29> { type Output = N<30>; }
impl TAdd<N<2>> for N<29> { type Output = N<31>; }
impl TAdd<N<9>> for N<29> { type Output = N<38>; }
impl TAdd<N<1>> for N<30> { type Output = N<31>; }
impl TAdd<N<2>> for N<30> { type Output = N<32>; }
impl TAdd<N<9>> for N<30> { type Output = N<39>; }
impl TAdd<N<1>> for N<31> { type Output = N<32>; }
impl TAdd<N<2>> for N<31> { type Output = N<33>; }
impl TAdd<N<9>> for N<31> { type Output = N<40>; }
impl TAdd<N<1>> for N<32> { type Output = N<33>; }
impl TAdd<N<2>> for N<32> { type Output = N<34>; }
impl TAdd<N<9>> for N<32> { type Output = N<41>; }
impl TAdd<N<1>> for N<33> { type Output = N<34>; }
impl TAdd<N<2>> for N<33> { type Output = N<35>; }
impl TAdd<N<9>> for N<33> { type Output = N<42>; }
impl TAdd<N<1>> for N<34> { type Output = N<35>; }
impl TAdd<N<2>> for N<34> { type Output = N<36>; }
impl TAdd<N<9>> for N<34> { type Output = N<43>; }
impl TAdd<N<1>> for N<35> { type Output = N<36>; }
impl TAdd<N<2>> for N<35> { type Output = N<37>; }
impl TAdd<N<9>> for N<35> { type Output = N<44>; }
impl TAdd<N<1>> for N<36> { type Output = N<37>; }
impl TAdd<N<2>> for N<36> { type Output = N<38>; }
impl TAdd<N<9>> for N<36> { type Output = N<45>; }
impl TAdd<N<1>> for N<37> { type Output = N<38>; }
impl TAdd<N<2>> for N<37> { type Output = N<39>; }
impl TAdd<N<9>> for N<37> { type Output = N<46>; }
impl TAdd<N<1>> for N<38> { type Output = N<39>; }
impl TAdd<N<2>> for N<38> { type Output = N<40>; }
impl TAdd<N<9>> for N<38> { type Output = N<47>; }
impl TAdd<N<1>> for N<39> { type Output = N<40>; }
impl TAdd<N<2>> for N<39> { type Output = N<41>; }
impl TAdd<N<9>> for N<39> { type Output = N<48>; }
impl TAdd<N<1>> for N<40> { type Output = N<41>; }
impl TAdd<N<2>> for N<40> { type Output = N<42>; }
impl TAdd<N<9>> for N<40> { type Output = N<49>; }
impl TAdd<N<32>> for N<32> { type Output = N<64>; }
impl TAdd<N<48>> for N<48> { type Output = N<96>; }
impl TAdd<N<66>> for N<66> { type Output = N<132>; }
impl TAdd<N<33>> for N<32> { type Output = N<65>; }
impl TAdd<N<49>> for N<48> { type Output = N<97>; }
impl TAdd<N<67>> for N<66> { type Output = N<133>; }
}
