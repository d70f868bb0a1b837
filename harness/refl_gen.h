// Structs of 1 to 64 members (of cycling types); EACH_N(f) lists the members, used by reflection.cpp
#pragma once
#define MEM_0
#define MEM_1 MEM_0 std::uint8_t p1;
#define MEM_2 MEM_1 std::int8_t p2;
#define MEM_3 MEM_2 std::int32_t p3;
#define MEM_4 MEM_3 std::uint32_t p4;
#define MEM_5 MEM_4 std::int8_t p5;
#define MEM_6 MEM_5 std::uint16_t p6;
#define MEM_7 MEM_6 std::uint64_t p7;
#define MEM_8 MEM_7 std::uint8_t p8;
#define MEM_9 MEM_8 std::int8_t p9;
#define MEM_10 MEM_9 std::int32_t p10;
#define MEM_11 MEM_10 std::uint32_t p11;
#define MEM_12 MEM_11 bool_t p12;
#define MEM_13 MEM_12 std::uint16_t p13;
#define MEM_14 MEM_13 std::uint64_t p14;
#define MEM_15 MEM_14 std::uint32_t p15;
#define MEM_16 MEM_15 std::int8_t p16;
#define MEM_17 MEM_16 std::int32_t p17;
#define MEM_18 MEM_17 std::uint32_t p18;
#define MEM_19 MEM_18 bool_t p19;
#define MEM_20 MEM_19 bool_t p20;
#define MEM_21 MEM_20 std::uint64_t p21;
#define MEM_22 MEM_21 std::uint8_t p22;
#define MEM_23 MEM_22 std::int8_t p23;
#define MEM_24 MEM_23 std::int32_t p24;
#define MEM_25 MEM_24 std::uint16_t p25;
#define MEM_26 MEM_25 bool_t p26;
#define MEM_27 MEM_26 std::uint16_t p27;
#define MEM_28 MEM_27 std::uint64_t p28;
#define MEM_29 MEM_28 std::uint8_t p29;
#define MEM_30 MEM_29 std::uint64_t p30;
#define MEM_31 MEM_30 std::int32_t p31;
#define MEM_32 MEM_31 std::uint32_t p32;
#define MEM_33 MEM_32 bool_t p33;
#define MEM_34 MEM_33 std::uint16_t p34;
#define MEM_35 MEM_34 std::uint8_t p35;
#define MEM_36 MEM_35 std::uint8_t p36;
#define MEM_37 MEM_36 std::int8_t p37;
#define MEM_38 MEM_37 std::int32_t p38;
#define MEM_39 MEM_38 std::uint32_t p39;
#define MEM_40 MEM_39 std::int8_t p40;
#define MEM_41 MEM_40 std::uint16_t p41;
#define MEM_42 MEM_41 std::uint64_t p42;
#define MEM_43 MEM_42 std::uint8_t p43;
#define MEM_44 MEM_43 std::int8_t p44;
#define MEM_45 MEM_44 std::int32_t p45;
#define MEM_46 MEM_45 std::uint32_t p46;
#define MEM_47 MEM_46 bool_t p47;
#define MEM_48 MEM_47 std::uint16_t p48;
#define MEM_49 MEM_48 std::uint64_t p49;
#define MEM_50 MEM_49 std::uint32_t p50;
#define MEM_51 MEM_50 std::int8_t p51;
#define MEM_52 MEM_51 std::int32_t p52;
#define MEM_53 MEM_52 std::uint32_t p53;
#define MEM_54 MEM_53 bool_t p54;
#define MEM_55 MEM_54 bool_t p55;
#define MEM_56 MEM_55 std::uint64_t p56;
#define MEM_57 MEM_56 std::uint8_t p57;
#define MEM_58 MEM_57 std::int8_t p58;
#define MEM_59 MEM_58 std::int32_t p59;
#define MEM_60 MEM_59 std::uint16_t p60;
#define MEM_61 MEM_60 bool_t p61;
#define MEM_62 MEM_61 std::uint16_t p62;
#define MEM_63 MEM_62 std::uint64_t p63;
#define MEM_64 MEM_63 std::uint8_t p64;
#define EACH_0(S, f)
#define EACH_1(S, f) EACH_0(S, f) f(S, 0, p1)
#define EACH_2(S, f) EACH_1(S, f) f(S, 1, p2)
#define EACH_3(S, f) EACH_2(S, f) f(S, 2, p3)
#define EACH_4(S, f) EACH_3(S, f) f(S, 3, p4)
#define EACH_5(S, f) EACH_4(S, f) f(S, 4, p5)
#define EACH_6(S, f) EACH_5(S, f) f(S, 5, p6)
#define EACH_7(S, f) EACH_6(S, f) f(S, 6, p7)
#define EACH_8(S, f) EACH_7(S, f) f(S, 7, p8)
#define EACH_9(S, f) EACH_8(S, f) f(S, 8, p9)
#define EACH_10(S, f) EACH_9(S, f) f(S, 9, p10)
#define EACH_11(S, f) EACH_10(S, f) f(S, 10, p11)
#define EACH_12(S, f) EACH_11(S, f) f(S, 11, p12)
#define EACH_13(S, f) EACH_12(S, f) f(S, 12, p13)
#define EACH_14(S, f) EACH_13(S, f) f(S, 13, p14)
#define EACH_15(S, f) EACH_14(S, f) f(S, 14, p15)
#define EACH_16(S, f) EACH_15(S, f) f(S, 15, p16)
#define EACH_17(S, f) EACH_16(S, f) f(S, 16, p17)
#define EACH_18(S, f) EACH_17(S, f) f(S, 17, p18)
#define EACH_19(S, f) EACH_18(S, f) f(S, 18, p19)
#define EACH_20(S, f) EACH_19(S, f) f(S, 19, p20)
#define EACH_21(S, f) EACH_20(S, f) f(S, 20, p21)
#define EACH_22(S, f) EACH_21(S, f) f(S, 21, p22)
#define EACH_23(S, f) EACH_22(S, f) f(S, 22, p23)
#define EACH_24(S, f) EACH_23(S, f) f(S, 23, p24)
#define EACH_25(S, f) EACH_24(S, f) f(S, 24, p25)
#define EACH_26(S, f) EACH_25(S, f) f(S, 25, p26)
#define EACH_27(S, f) EACH_26(S, f) f(S, 26, p27)
#define EACH_28(S, f) EACH_27(S, f) f(S, 27, p28)
#define EACH_29(S, f) EACH_28(S, f) f(S, 28, p29)
#define EACH_30(S, f) EACH_29(S, f) f(S, 29, p30)
#define EACH_31(S, f) EACH_30(S, f) f(S, 30, p31)
#define EACH_32(S, f) EACH_31(S, f) f(S, 31, p32)
#define EACH_33(S, f) EACH_32(S, f) f(S, 32, p33)
#define EACH_34(S, f) EACH_33(S, f) f(S, 33, p34)
#define EACH_35(S, f) EACH_34(S, f) f(S, 34, p35)
#define EACH_36(S, f) EACH_35(S, f) f(S, 35, p36)
#define EACH_37(S, f) EACH_36(S, f) f(S, 36, p37)
#define EACH_38(S, f) EACH_37(S, f) f(S, 37, p38)
#define EACH_39(S, f) EACH_38(S, f) f(S, 38, p39)
#define EACH_40(S, f) EACH_39(S, f) f(S, 39, p40)
#define EACH_41(S, f) EACH_40(S, f) f(S, 40, p41)
#define EACH_42(S, f) EACH_41(S, f) f(S, 41, p42)
#define EACH_43(S, f) EACH_42(S, f) f(S, 42, p43)
#define EACH_44(S, f) EACH_43(S, f) f(S, 43, p44)
#define EACH_45(S, f) EACH_44(S, f) f(S, 44, p45)
#define EACH_46(S, f) EACH_45(S, f) f(S, 45, p46)
#define EACH_47(S, f) EACH_46(S, f) f(S, 46, p47)
#define EACH_48(S, f) EACH_47(S, f) f(S, 47, p48)
#define EACH_49(S, f) EACH_48(S, f) f(S, 48, p49)
#define EACH_50(S, f) EACH_49(S, f) f(S, 49, p50)
#define EACH_51(S, f) EACH_50(S, f) f(S, 50, p51)
#define EACH_52(S, f) EACH_51(S, f) f(S, 51, p52)
#define EACH_53(S, f) EACH_52(S, f) f(S, 52, p53)
#define EACH_54(S, f) EACH_53(S, f) f(S, 53, p54)
#define EACH_55(S, f) EACH_54(S, f) f(S, 54, p55)
#define EACH_56(S, f) EACH_55(S, f) f(S, 55, p56)
#define EACH_57(S, f) EACH_56(S, f) f(S, 56, p57)
#define EACH_58(S, f) EACH_57(S, f) f(S, 57, p58)
#define EACH_59(S, f) EACH_58(S, f) f(S, 58, p59)
#define EACH_60(S, f) EACH_59(S, f) f(S, 59, p60)
#define EACH_61(S, f) EACH_60(S, f) f(S, 60, p61)
#define EACH_62(S, f) EACH_61(S, f) f(S, 61, p62)
#define EACH_63(S, f) EACH_62(S, f) f(S, 62, p63)
#define EACH_64(S, f) EACH_63(S, f) f(S, 63, p64)
