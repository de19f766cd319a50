#pragma once

#define I_SPLAT_CAT(a, b) I_SPLAT_CAT_I(a, b)
#define I_SPLAT_CAT_I(a, b) a##b
#define I_SPLAT_NTH(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38, a39, n, ...) n
#define I_SPLAT_IT_0(m, ...)
#define I_SPLAT_IT_1(m, a0) m(a0, 0)
#define I_SPLAT_IT_2(m, a0, a1) m(a0, 0), m(a1, 1)
#define I_SPLAT_IT_3(m, a0, a1, a2) m(a0, 0), m(a1, 1), m(a2, 2)
#define I_SPLAT_IT_4(m, a0, a1, a2, a3) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3)
#define I_SPLAT_IT_5(m, a0, a1, a2, a3, a4) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4)
#define I_SPLAT_IT_6(m, a0, a1, a2, a3, a4, a5) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5)
#define I_SPLAT_IT_7(m, a0, a1, a2, a3, a4, a5, a6) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6)
#define I_SPLAT_IT_8(m, a0, a1, a2, a3, a4, a5, a6, a7) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7)
#define I_SPLAT_IT_9(m, a0, a1, a2, a3, a4, a5, a6, a7, a8) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8)
#define I_SPLAT_IT_10(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9)
#define I_SPLAT_IT_11(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10)
#define I_SPLAT_IT_12(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11)
#define I_SPLAT_IT_13(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12)
#define I_SPLAT_IT_14(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13)
#define I_SPLAT_IT_15(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14)
#define I_SPLAT_IT_16(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15)
#define I_SPLAT_IT_17(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16)
#define I_SPLAT_IT_18(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17)
#define I_SPLAT_IT_19(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18)
#define I_SPLAT_IT_20(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19)
#define I_SPLAT_IT_21(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20)
#define I_SPLAT_IT_22(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21)
#define I_SPLAT_IT_23(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22)
#define I_SPLAT_IT_24(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23)
#define I_SPLAT_IT_25(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24)
#define I_SPLAT_IT_26(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25)
#define I_SPLAT_IT_27(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26)
#define I_SPLAT_IT_28(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27)
#define I_SPLAT_IT_29(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28)
#define I_SPLAT_IT_30(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29)
#define I_SPLAT_IT_31(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30)
#define I_SPLAT_IT_32(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30), m(a31, 31)
#define I_SPLAT_IT_33(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30), m(a31, 31), m(a32, 32)
#define I_SPLAT_IT_34(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30), m(a31, 31), m(a32, 32), m(a33, 33)
#define I_SPLAT_IT_35(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30), m(a31, 31), m(a32, 32), m(a33, 33), m(a34, 34)
#define I_SPLAT_IT_36(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30), m(a31, 31), m(a32, 32), m(a33, 33), m(a34, 34), m(a35, 35)
#define I_SPLAT_IT_37(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30), m(a31, 31), m(a32, 32), m(a33, 33), m(a34, 34), m(a35, 35), m(a36, 36)
#define I_SPLAT_IT_38(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30), m(a31, 31), m(a32, 32), m(a33, 33), m(a34, 34), m(a35, 35), m(a36, 36), m(a37, 37)
#define I_SPLAT_IT_39(m, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37, a38) m(a0, 0), m(a1, 1), m(a2, 2), m(a3, 3), m(a4, 4), m(a5, 5), m(a6, 6), m(a7, 7), m(a8, 8), m(a9, 9), m(a10, 10), m(a11, 11), m(a12, 12), m(a13, 13), m(a14, 14), m(a15, 15), m(a16, 16), m(a17, 17), m(a18, 18), m(a19, 19), m(a20, 20), m(a21, 21), m(a22, 22), m(a23, 23), m(a24, 24), m(a25, 25), m(a26, 26), m(a27, 27), m(a28, 28), m(a29, 29), m(a30, 30), m(a31, 31), m(a32, 32), m(a33, 33), m(a34, 34), m(a35, 35), m(a36, 36), m(a37, 37), m(a38, 38)
#define SPLAT_ITERATE_WITH(m, ...) I_SPLAT_CAT(I_SPLAT_IT_, I_SPLAT_NTH(dummy, ##__VA_ARGS__, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0))(m, ##__VA_ARGS__)
