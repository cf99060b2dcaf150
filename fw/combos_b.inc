// Generated by tools/gen_combos.py: combinations of deferred settings. C( shape, names... ); shape 0: left to right, 1: a, ( b, ... ), 2: ( a, b ), ( c, d ).
C( 0, EE_READY )
C( 0, EE_WRITE )
C( 0, EI_SENSE1 )
C( 0, T0_CLOCK )
C( 0, T0_MODEA )
C( 0, T0_IEA )
C( 0, T0_IEO )
C( 0, T1_EDGE )
C( 0, T1_NOISE )
C( 0, T1_MODEB )
C( 0, T1_IEA )
C( 0, T1_IEO )
C( 0, GT_RES2 )
C( 0, TW_FLAG )
C( 0, TW_START )
C( 0, TW_ENABLE )
C( 0, TW_ADDR )
C( 0, AC_DIS )
C( 0, AC_IE )
C( 0, AC_ON )
C( 0, AD_ADJ )
C( 0, AD_ENABLE )
C( 0, AD_AUTO )
C( 0, AD_PRE )
C( 0, AD_TRIG )
C( 0, G0_MID )
C( 0, U0_HI )
C( 0, U0_LOW )
C( 0, EE_MODE, EE_MASTER )
C( 0, EE_MODE, EE_READ )
C( 0, EE_READY, EE_MASTER )
C( 0, EE_READY, EE_READ )
C( 0, EE_MASTER, EE_READY )
C( 0, EE_MASTER, EE_READ )
C( 0, EE_WRITE, EE_READY )
C( 0, EE_WRITE, EE_READ )
C( 0, EE_READ, EE_READY )
C( 0, EE_READ, EE_WRITE )
C( 0, EE_MODE, EE_READ, EE_READY )
C( 0, EE_WRITE, EE_READY, EE_READ )
C( 1, EE_MODE, EE_MASTER, EE_WRITE )
C( 2, EE_READ, EE_READY, EE_MODE, EE_MASTER )
C( 0, EE_READ, EE_WRITE, EE_MODE, EE_MASTER, EE_READY )
C( 0, EI_SENSE1, EI_SENSE0 )
C( 0, T0_CLOCK, T0_WAVE )
C( 0, T0_MODEA, T0_MODEB )
C( 0, T0_IEA, T0_IEB )
C( 0, T0_IEB, T0_IEA )
C( 0, T0_IEO, T0_IEA )
C( 0, T0_IEA, T0_IEO, T0_IEB )
C( 0, T0_IEO, T0_IEB, T0_IEA )
C( 1, T0_IEB, T0_IEO, T0_IEA )
C( 0, T1_CLOCK, T1_EDGE )
C( 0, T1_CLOCK, T1_NOISE )
C( 0, T1_EDGE, T1_WAVE )
C( 0, T1_WAVE, T1_CLOCK )
C( 0, T1_WAVE, T1_NOISE )
C( 0, T1_NOISE, T1_EDGE )
C( 0, T1_WAVE, T1_NOISE, T1_EDGE )
C( 0, T1_NOISE, T1_CLOCK, T1_EDGE )
C( 1, T1_WAVE, T1_NOISE, T1_EDGE )
C( 2, T1_EDGE, T1_CLOCK, T1_WAVE, T1_NOISE )
C( 0, T1_EDGE, T1_NOISE, T1_WAVE, T1_CLOCK )
C( 1, T1_WAVE, T1_CLOCK, T1_NOISE, T1_EDGE )
C( 0, T1_MODEB, T1_MODEA )
C( 0, T1_IEC, T1_IEB )
C( 0, T1_IEA, T1_IEC )
C( 0, T1_IEA, T1_IEO )
C( 0, T1_IEB, T1_IEA )
C( 0, T1_IEO, T1_IEC )
C( 0, T1_IEO, T1_IEB )
C( 0, T1_IEO, T1_IEC, T1_IEA )
C( 0, T1_IEB, T1_IEO, T1_IEC )
C( 1, T1_IEA, T1_IEO, T1_IEC )
C( 2, T1_IEO, T1_IEC, T1_IEA, T1_IEB )
C( 0, T1_IEB, T1_IEA, T1_IEO, T1_IEC )
C( 0, GT_SYNC, GT_RES2 )
C( 0, GT_RES2, GT_SYNC )
C( 0, GT_RES01, GT_SYNC )
C( 0, GT_RES2, GT_RES01, GT_SYNC )
C( 0, GT_RES01, GT_SYNC, GT_RES2 )
C( 1, GT_RES01, GT_RES2, GT_SYNC )
C( 0, TW_FLAG, TW_ACK )
C( 0, TW_FLAG, TW_STOP )
C( 0, TW_FLAG, TW_IE )
C( 0, TW_ACK, TW_START )
C( 0, TW_ACK, TW_ENABLE )
C( 0, TW_START, TW_FLAG )
C( 0, TW_START, TW_STOP )
C( 0, TW_START, TW_IE )
C( 0, TW_STOP, TW_ACK )
C( 0, TW_STOP, TW_ENABLE )
C( 0, TW_ENABLE, TW_FLAG )
C( 0, TW_ENABLE, TW_START )
C( 0, TW_ENABLE, TW_IE )
C( 0, TW_IE, TW_ACK )
C( 0, TW_IE, TW_STOP )
C( 0, TW_ENABLE, TW_FLAG, TW_STOP )
C( 0, TW_ENABLE, TW_ACK, TW_IE )
C( 1, TW_START, TW_IE, TW_ACK )
C( 2, TW_IE, TW_STOP, TW_START, TW_FLAG )
C( 0, TW_FLAG, TW_STOP, TW_IE, TW_ENABLE, TW_ACK, TW_START )
C( 1, TW_ACK, TW_STOP, TW_ENABLE, TW_START, TW_IE, TW_FLAG )
C( 0, TW_CALL, TW_ADDR )
C( 0, AC_DIS, AC_IE )
C( 0, AC_DIS, AC_ON )
C( 0, AC_BG, AC_IE )
C( 0, AC_BG, AC_ON )
C( 0, AC_IE, AC_BG )
C( 0, AC_IE, AC_ON )
C( 0, AC_CAPT, AC_BG )
C( 0, AC_CAPT, AC_ON )
C( 0, AC_ON, AC_BG )
C( 0, AC_ON, AC_CAPT )
C( 0, AC_IE, AC_BG, AC_DIS )
C( 0, AC_IE, AC_ON, AC_CAPT )
C( 1, AC_CAPT, AC_ON, AC_DIS )
C( 2, AC_BG, AC_ON, AC_DIS, AC_IE )
C( 0, AC_CAPT, AC_BG, AC_ON, AC_IE, AC_DIS )
C( 0, AD_REF, AD_ADJ )
C( 0, AD_ADJ, AD_REF )
C( 0, AD_CHAN, AD_REF )
C( 0, AD_REF, AD_CHAN, AD_ADJ )
C( 0, AD_REF, AD_ADJ, AD_CHAN )
C( 1, AD_CHAN, AD_ADJ, AD_REF )
C( 0, AD_ENABLE, AD_START )
C( 0, AD_ENABLE, AD_IE )
C( 0, AD_START, AD_ENABLE )
C( 0, AD_START, AD_IE )
C( 0, AD_AUTO, AD_ENABLE )
C( 0, AD_AUTO, AD_IE )
C( 0, AD_IE, AD_ENABLE )
C( 0, AD_IE, AD_AUTO )
C( 0, AD_PRE, AD_ENABLE )
C( 0, AD_PRE, AD_AUTO )
C( 0, AD_AUTO, AD_ENABLE, AD_IE )
C( 0, AD_AUTO, AD_IE, AD_ENABLE )
C( 1, AD_AUTO, AD_ENABLE, AD_IE )
C( 2, AD_START, AD_ENABLE, AD_IE, AD_PRE )
C( 0, AD_ENABLE, AD_PRE, AD_AUTO, AD_IE, AD_START )
C( 1, AD_START, AD_AUTO, AD_PRE, AD_IE, AD_ENABLE )
C( 0, AD_TRIG, AD_COMP )
C( 0, G0_HI, G0_LOW )
C( 0, G0_MID, G0_LOW )
C( 0, G0_LOW, G0_MID )
C( 0, G0_LOW, G0_MID, G0_HI )
C( 0, G0_HI, G0_LOW, G0_MID )
C( 1, G0_LOW, G0_MID, G0_HI )
C( 0, U0_HI, U0_LOW )
C( 0, U0_BIT, U0_LOW )
C( 0, U0_LOW, U0_BIT )
C( 0, U0_HI, U0_BIT, U0_LOW )
C( 0, U0_LOW, U0_HI, U0_BIT )
C( 1, U0_BIT, U0_HI, U0_LOW )
