// Written by tools/mkcdlref.py, then reviewed by hand: recognition rules and look-backs of the candlestick patterns.
static int lb_CDL2CROWS(const Cs* cs) { (void)cs; return PER(BodyLong) + 2; }
static int ref_CDL2CROWS(CDLARGS) { if( TA_CANDLECOLOR(i-2) == 1 && TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_CANDLECOLOR(i-1) == -1 && TA_REALBODYGAPUP(i-1,i-2) && TA_CANDLECOLOR(i) == -1 && inOpen[i] < inOpen[i-1] && inOpen[i] > inClose[i-1] && inClose[i] > inOpen[i-2] && inClose[i] < inClose[i-2] ) return -100; else return 0; }
static int lb_CDL3BLACKCROWS(const Cs* cs) { (void)cs; return PER(ShadowVeryShort) + 3; }
static int ref_CDL3BLACKCROWS(CDLARGS) { if( TA_CANDLECOLOR(i-3) == 1 && TA_CANDLECOLOR(i-2) == -1 && TA_LOWERSHADOW(i-2) < AVG(ShadowVeryShort,i-2) && TA_CANDLECOLOR(i-1) == -1 && TA_LOWERSHADOW(i-1) < AVG(ShadowVeryShort,i-1) && TA_CANDLECOLOR(i) == -1 && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) && inOpen[i-1] < inOpen[i-2] && inOpen[i-1] > inClose[i-2] && inOpen[i] < inOpen[i-1] && inOpen[i] > inClose[i-1] && inHigh[i-3] > inClose[i-2] && inClose[i-2] > inClose[i-1] && inClose[i-1] > inClose[i] ) return -100; else return 0; }
static int lb_CDL3INSIDE(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(BodyLong) ) + 2; }
static int ref_CDL3INSIDE(CDLARGS) { if( TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_REALBODY(i-1) <= AVG(BodyShort,i-1) && max( inClose[i-1], inOpen[i-1] ) < max( inClose[i-2], inOpen[i-2] ) && min( inClose[i-1], inOpen[i-1] ) > min( inClose[i-2], inOpen[i-2] ) && ( ( TA_CANDLECOLOR(i-2) == 1 && TA_CANDLECOLOR(i) == -1 && inClose[i] < inOpen[i-2] ) || ( TA_CANDLECOLOR(i-2) == -1 && TA_CANDLECOLOR(i) == 1 && inClose[i] > inOpen[i-2] ) ) ) return -TA_CANDLECOLOR(i-2) * 100; else return 0; }
static int lb_CDL3LINESTRIKE(const Cs* cs) { (void)cs; return PER(Near) + 3; }
static int ref_CDL3LINESTRIKE(CDLARGS) { if( TA_CANDLECOLOR(i-3) == TA_CANDLECOLOR(i-2) && TA_CANDLECOLOR(i-2) == TA_CANDLECOLOR(i-1) && TA_CANDLECOLOR(i) == -TA_CANDLECOLOR(i-1) && inOpen[i-2] >= min( inOpen[i-3], inClose[i-3] ) - AVG(Near,i-3) && inOpen[i-2] <= max( inOpen[i-3], inClose[i-3] ) + AVG(Near,i-3) && inOpen[i-1] >= min( inOpen[i-2], inClose[i-2] ) - AVG(Near,i-2) && inOpen[i-1] <= max( inOpen[i-2], inClose[i-2] ) + AVG(Near,i-2) && ( ( TA_CANDLECOLOR(i-1) == 1 && inClose[i-1] > inClose[i-2] && inClose[i-2] > inClose[i-3] && inOpen[i] > inClose[i-1] && inClose[i] < inOpen[i-3] ) || ( TA_CANDLECOLOR(i-1) == -1 && inClose[i-1] < inClose[i-2] && inClose[i-2] < inClose[i-3] && inOpen[i] < inClose[i-1] && inClose[i] > inOpen[i-3] ) ) ) return TA_CANDLECOLOR(i-1) * 100; else return 0; }
static int lb_CDL3OUTSIDE(const Cs* cs) { (void)cs; return 3; }
static int ref_CDL3OUTSIDE(CDLARGS) { if( ( TA_CANDLECOLOR(i-1) == 1 && TA_CANDLECOLOR(i-2) == -1 && inClose[i-1] > inOpen[i-2] && inOpen[i-1] < inClose[i-2] && inClose[i] > inClose[i-1] ) || ( TA_CANDLECOLOR(i-1) == -1 && TA_CANDLECOLOR(i-2) == 1 && inOpen[i-1] > inClose[i-2] && inClose[i-1] < inOpen[i-2] && inClose[i] < inClose[i-1] ) ) { return TA_CANDLECOLOR(i-1) * 100; } else return 0; }
static int lb_CDL3STARSINSOUTH(const Cs* cs) { (void)cs; return max( max( PER(ShadowVeryShort), PER(ShadowLong) ), max( PER(BodyLong), PER(BodyShort) ) ) + 2; }
static int ref_CDL3STARSINSOUTH(CDLARGS) { if( TA_CANDLECOLOR(i-2) == -1 && TA_CANDLECOLOR(i-1) == -1 && TA_CANDLECOLOR(i) == -1 && TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_LOWERSHADOW(i-2) > AVG(ShadowLong,i-2) && TA_REALBODY(i-1) < TA_REALBODY(i-2) && inOpen[i-1] > inClose[i-2] && inOpen[i-1] <= inHigh[i-2] && inLow[i-1] < inClose[i-2] && inLow[i-1] >= inLow[i-2] && TA_LOWERSHADOW(i-1) > AVG(ShadowVeryShort,i-1) && TA_REALBODY(i) < AVG(BodyShort,i) && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) && inLow[i] > inLow[i-1] && inHigh[i] < inHigh[i-1] ) return 100; else return 0; }
static int lb_CDL3WHITESOLDIERS(const Cs* cs) { (void)cs; return max( max( PER(ShadowVeryShort), PER(BodyShort) ), max( PER(Far), PER(Near) ) ) + 2; }
static int ref_CDL3WHITESOLDIERS(CDLARGS) { if( TA_CANDLECOLOR(i-2) == 1 && TA_UPPERSHADOW(i-2) < AVG(ShadowVeryShort,i-2) && TA_CANDLECOLOR(i-1) == 1 && TA_UPPERSHADOW(i-1) < AVG(ShadowVeryShort,i-1) && TA_CANDLECOLOR(i) == 1 && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) && inClose[i] > inClose[i-1] && inClose[i-1] > inClose[i-2] && inOpen[i-1] > inOpen[i-2] && inOpen[i-1] <= inClose[i-2] + AVG(Near,i-2) && inOpen[i] > inOpen[i-1] && inOpen[i] <= inClose[i-1] + AVG(Near,i-1) && TA_REALBODY(i-1) > TA_REALBODY(i-2) - AVG(Far,i-2) && TA_REALBODY(i) > TA_REALBODY(i-1) - AVG(Far,i-1) && TA_REALBODY(i) > AVG(BodyShort,i) ) return 100; else return 0; }
static int lb_CDLABANDONEDBABY(const Cs* cs) { (void)cs; return max( max( PER(BodyDoji), PER(BodyLong) ), PER(BodyShort) ) + 2; }
static int ref_CDLABANDONEDBABY(CDLARGS) { if( TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_REALBODY(i-1) <= AVG(BodyDoji,i-1) && TA_REALBODY(i) > AVG(BodyShort,i) && ( ( TA_CANDLECOLOR(i-2) == 1 && TA_CANDLECOLOR(i) == -1 && inClose[i] < inClose[i-2] - TA_REALBODY(i-2) * optInPenetration && TA_CANDLEGAPUP(i-1,i-2) && TA_CANDLEGAPDOWN(i,i-1) ) || ( TA_CANDLECOLOR(i-2) == -1 && TA_CANDLECOLOR(i) == 1 && inClose[i] > inClose[i-2] + TA_REALBODY(i-2) * optInPenetration && TA_CANDLEGAPDOWN(i-1,i-2) && TA_CANDLEGAPUP(i,i-1) ) ) ) { return TA_CANDLECOLOR(i) * 100; } else { return 0; } }
static int lb_CDLADVANCEBLOCK(const Cs* cs) { (void)cs; return max( max( max( PER(ShadowLong), PER(ShadowShort) ), max( PER(Far), PER(Near) ) ), PER(BodyLong) ) + 2; }
static int ref_CDLADVANCEBLOCK(CDLARGS) { if( TA_CANDLECOLOR(i-2) == 1 && TA_CANDLECOLOR(i-1) == 1 && TA_CANDLECOLOR(i) == 1 && inClose[i] > inClose[i-1] && inClose[i-1] > inClose[i-2] && inOpen[i-1] > inOpen[i-2] && inOpen[i-1] <= inClose[i-2] + AVG(Near,i-2) && inOpen[i] > inOpen[i-1] && inOpen[i] <= inClose[i-1] + AVG(Near,i-1) && TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_UPPERSHADOW(i-2) < AVG(ShadowShort,i-2) && ( ( TA_REALBODY(i-1) < TA_REALBODY(i-2) - AVG(Far,i-2) && TA_REALBODY(i) < TA_REALBODY(i-1) + AVG(Near,i-1) ) || ( TA_REALBODY(i) < TA_REALBODY(i-1) - AVG(Far,i-1) ) || ( TA_REALBODY(i) < TA_REALBODY(i-1) && TA_REALBODY(i-1) < TA_REALBODY(i-2) && ( TA_UPPERSHADOW(i) > AVG(ShadowShort,i) || TA_UPPERSHADOW(i-1) > AVG(ShadowShort,i-1) ) ) || ( TA_REALBODY(i) < TA_REALBODY(i-1) && TA_UPPERSHADOW(i) > AVG(ShadowLong,i) ) ) ) return -100; else return 0; }
static int lb_CDLBELTHOLD(const Cs* cs) { (void)cs; return max( PER(BodyLong), PER(ShadowVeryShort) ); }
static int ref_CDLBELTHOLD(CDLARGS) { if( TA_REALBODY(i) > AVG(BodyLong,i) && ( ( TA_CANDLECOLOR(i) == 1 && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) ) || ( TA_CANDLECOLOR(i) == -1 && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) ) ) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLBREAKAWAY(const Cs* cs) { (void)cs; return PER(BodyLong) + 4; }
static int ref_CDLBREAKAWAY(CDLARGS) { if( TA_REALBODY(i-4) > AVG(BodyLong,i-4) && TA_CANDLECOLOR(i-4) == TA_CANDLECOLOR(i-3) && TA_CANDLECOLOR(i-3) == TA_CANDLECOLOR(i-1) && TA_CANDLECOLOR(i-1) == -TA_CANDLECOLOR(i) && ( ( TA_CANDLECOLOR(i-4) == -1 && TA_REALBODYGAPDOWN(i-3,i-4) && inHigh[i-2] < inHigh[i-3] && inLow[i-2] < inLow[i-3] && inHigh[i-1] < inHigh[i-2] && inLow[i-1] < inLow[i-2] && inClose[i] > inOpen[i-3] && inClose[i] < inClose[i-4] ) || ( TA_CANDLECOLOR(i-4) == 1 && TA_REALBODYGAPUP(i-3,i-4) && inHigh[i-2] > inHigh[i-3] && inLow[i-2] > inLow[i-3] && inHigh[i-1] > inHigh[i-2] && inLow[i-1] > inLow[i-2] && inClose[i] < inOpen[i-3] && inClose[i] > inClose[i-4] ) ) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLCLOSINGMARUBOZU(const Cs* cs) { (void)cs; return max( PER(BodyLong), PER(ShadowVeryShort) ); }
static int ref_CDLCLOSINGMARUBOZU(CDLARGS) { if( TA_REALBODY(i) > AVG(BodyLong,i) && ( ( TA_CANDLECOLOR(i) == 1 && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) ) || ( TA_CANDLECOLOR(i) == -1 && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) ) ) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLCONCEALBABYSWALL(const Cs* cs) { (void)cs; return PER(ShadowVeryShort) + 3; }
static int ref_CDLCONCEALBABYSWALL(CDLARGS) { if( TA_CANDLECOLOR(i-3) == -1 && TA_CANDLECOLOR(i-2) == -1 && TA_CANDLECOLOR(i-1) == -1 && TA_CANDLECOLOR(i) == -1 && TA_LOWERSHADOW(i-3) < AVG(ShadowVeryShort,i-3) && TA_UPPERSHADOW(i-3) < AVG(ShadowVeryShort,i-3) && TA_LOWERSHADOW(i-2) < AVG(ShadowVeryShort,i-2) && TA_UPPERSHADOW(i-2) < AVG(ShadowVeryShort,i-2) && TA_REALBODYGAPDOWN(i-1,i-2) && TA_UPPERSHADOW(i-1) > AVG(ShadowVeryShort,i-1) && inHigh[i-1] > inClose[i-2] && inHigh[i] > inHigh[i-1] && inLow[i] < inLow[i-1] ) return 100; else return 0; }
static int lb_CDLCOUNTERATTACK(const Cs* cs) { (void)cs; return max( PER(Equal), PER(BodyLong) ) + 1; }
static int ref_CDLCOUNTERATTACK(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -TA_CANDLECOLOR(i) && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_REALBODY(i) > AVG(BodyLong,i) && inClose[i] <= inClose[i-1] + AVG(Equal,i-1) && inClose[i] >= inClose[i-1] - AVG(Equal,i-1) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLDARKCLOUDCOVER(const Cs* cs) { (void)cs; return PER(BodyLong) + 1; }
static int ref_CDLDARKCLOUDCOVER(CDLARGS) { if( TA_CANDLECOLOR(i-1) == 1 && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_CANDLECOLOR(i) == -1 && inOpen[i] > inHigh[i-1] && inClose[i] > inOpen[i-1] && inClose[i] < inClose[i-1] - TA_REALBODY(i-1) * optInPenetration ) return -100; else return 0; }
static int lb_CDLDOJI(const Cs* cs) { (void)cs; return PER(BodyDoji); }
static int ref_CDLDOJI(CDLARGS) { if( TA_REALBODY(i) <= AVG(BodyDoji,i) ) return 100; else return 0; }
static int lb_CDLDOJISTAR(const Cs* cs) { (void)cs; return max( PER(BodyDoji), PER(BodyLong) ) + 1; }
static int ref_CDLDOJISTAR(CDLARGS) { if( TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_REALBODY(i) <= AVG(BodyDoji,i) && ( ( TA_CANDLECOLOR(i-1) == 1 && TA_REALBODYGAPUP(i,i-1) ) || ( TA_CANDLECOLOR(i-1) == -1 && TA_REALBODYGAPDOWN(i,i-1) ) ) ) return -TA_CANDLECOLOR(i-1) * 100; else return 0; }
static int lb_CDLDRAGONFLYDOJI(const Cs* cs) { (void)cs; return max( PER(BodyDoji), PER(ShadowVeryShort) ); }
static int ref_CDLDRAGONFLYDOJI(CDLARGS) { if( TA_REALBODY(i) <= AVG(BodyDoji,i) && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) && TA_LOWERSHADOW(i) > AVG(ShadowVeryShort,i) ) return 100; else return 0; }
static int lb_CDLENGULFING(const Cs* cs) { (void)cs; return 2; }
static int ref_CDLENGULFING(CDLARGS) { if( ( TA_CANDLECOLOR(i) == 1 && TA_CANDLECOLOR(i-1) == -1 && ( ( inClose[i] >= inOpen[i-1] && inOpen[i] < inClose[i-1] ) || ( inClose[i] > inOpen[i-1] && inOpen[i] <= inClose[i-1] ) ) ) || ( TA_CANDLECOLOR(i) == -1 && TA_CANDLECOLOR(i-1) == 1 && ( ( inOpen[i] >= inClose[i-1] && inClose[i] < inOpen[i-1] ) || ( inOpen[i] > inClose[i-1] && inClose[i] <= inOpen[i-1] ) ) ) ) if( inOpen[i] != inClose[i-1] && inClose[i] != inOpen[i-1] ) return TA_CANDLECOLOR(i) * 100; else return TA_CANDLECOLOR(i) * 80; else return 0; }
static int lb_CDLEVENINGDOJISTAR(const Cs* cs) { (void)cs; return max( max( PER(BodyDoji), PER(BodyLong) ), PER(BodyShort) ) + 2; }
static int ref_CDLEVENINGDOJISTAR(CDLARGS) { if( TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_CANDLECOLOR(i-2) == 1 && TA_REALBODY(i-1) <= AVG(BodyDoji,i-1) && TA_REALBODYGAPUP(i-1,i-2) && TA_REALBODY(i) > AVG(BodyShort,i) && TA_CANDLECOLOR(i) == -1 && inClose[i] < inClose[i-2] - TA_REALBODY(i-2) * optInPenetration ) return -100; else return 0; }
static int lb_CDLEVENINGSTAR(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(BodyLong) ) + 2; }
static int ref_CDLEVENINGSTAR(CDLARGS) { if( TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_CANDLECOLOR(i-2) == 1 && TA_REALBODY(i-1) <= AVG(BodyShort,i-1) && TA_REALBODYGAPUP(i-1,i-2) && TA_REALBODY(i) > AVG(BodyShort,i) && TA_CANDLECOLOR(i) == -1 && inClose[i] < inClose[i-2] - TA_REALBODY(i-2) * optInPenetration ) return -100; else return 0; }
static int lb_CDLGAPSIDESIDEWHITE(const Cs* cs) { (void)cs; return max( PER(Near), PER(Equal) ) + 2; }
static int ref_CDLGAPSIDESIDEWHITE(CDLARGS) { if( ( ( TA_REALBODYGAPUP(i-1,i-2) && TA_REALBODYGAPUP(i,i-2) ) || ( TA_REALBODYGAPDOWN(i-1,i-2) && TA_REALBODYGAPDOWN(i,i-2) ) ) && TA_CANDLECOLOR(i-1) == 1 && TA_CANDLECOLOR(i) == 1 && TA_REALBODY(i) >= TA_REALBODY(i-1) - AVG(Near,i-1) && TA_REALBODY(i) <= TA_REALBODY(i-1) + AVG(Near,i-1) && inOpen[i] >= inOpen[i-1] - AVG(Equal,i-1) && inOpen[i] <= inOpen[i-1] + AVG(Equal,i-1) ) return ( TA_REALBODYGAPUP(i-1,i-2) ? 100 : -100 ); else return 0; }
static int lb_CDLGRAVESTONEDOJI(const Cs* cs) { (void)cs; return max( PER(BodyDoji), PER(ShadowVeryShort) ); }
static int ref_CDLGRAVESTONEDOJI(CDLARGS) { if( TA_REALBODY(i) <= AVG(BodyDoji,i) && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) && TA_UPPERSHADOW(i) > AVG(ShadowVeryShort,i) ) return 100; else return 0; }
static int lb_CDLHAMMER(const Cs* cs) { (void)cs; return max( max( max( PER(BodyShort), PER(ShadowLong) ), PER(ShadowVeryShort) ), PER(Near) ) + 1; }
static int ref_CDLHAMMER(CDLARGS) { if( TA_REALBODY(i) < AVG(BodyShort,i) && TA_LOWERSHADOW(i) > AVG(ShadowLong,i) && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) && min( inClose[i], inOpen[i] ) <= inLow[i-1] + AVG(Near,i-1) ) return 100; else return 0; }
static int lb_CDLHANGINGMAN(const Cs* cs) { (void)cs; return max( max( max( PER(BodyShort), PER(ShadowLong) ), PER(ShadowVeryShort) ), PER(Near) ) + 1; }
static int ref_CDLHANGINGMAN(CDLARGS) { if( TA_REALBODY(i) < AVG(BodyShort,i) && TA_LOWERSHADOW(i) > AVG(ShadowLong,i) && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) && min( inClose[i], inOpen[i] ) >= inHigh[i-1] - AVG(Near,i-1) ) return -100; else return 0; }
static int lb_CDLHARAMI(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(BodyLong) ) + 1; }
static int ref_CDLHARAMI(CDLARGS) { if( TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_REALBODY(i) <= AVG(BodyShort,i) ) if ( max( inClose[i], inOpen[i] ) < max( inClose[i-1], inOpen[i-1] ) && min( inClose[i], inOpen[i] ) > min( inClose[i-1], inOpen[i-1] ) ) return -TA_CANDLECOLOR(i-1) * 100; else if ( max( inClose[i], inOpen[i] ) <= max( inClose[i-1], inOpen[i-1] ) && min( inClose[i], inOpen[i] ) >= min( inClose[i-1], inOpen[i-1] ) ) return -TA_CANDLECOLOR(i-1) * 80; else return 0; else return 0; }
static int lb_CDLHARAMICROSS(const Cs* cs) { (void)cs; return max( PER(BodyDoji), PER(BodyLong) ) + 1; }
static int ref_CDLHARAMICROSS(CDLARGS) { if( TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_REALBODY(i) <= AVG(BodyDoji,i) ) if ( max( inClose[i], inOpen[i] ) < max( inClose[i-1], inOpen[i-1] ) && min( inClose[i], inOpen[i] ) > min( inClose[i-1], inOpen[i-1] ) ) return -TA_CANDLECOLOR(i-1) * 100; else if ( max( inClose[i], inOpen[i] ) <= max( inClose[i-1], inOpen[i-1] ) && min( inClose[i], inOpen[i] ) >= min( inClose[i-1], inOpen[i-1] ) ) return -TA_CANDLECOLOR(i-1) * 80; else return 0; else return 0; }
static int lb_CDLHIGHWAVE(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(ShadowVeryLong) ); }
static int ref_CDLHIGHWAVE(CDLARGS) { if( TA_REALBODY(i) < AVG(BodyShort,i) && TA_UPPERSHADOW(i) > AVG(ShadowVeryLong,i) && TA_LOWERSHADOW(i) > AVG(ShadowVeryLong,i) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLHIKKAKE(const Cs* cs) { (void)cs; return 5; }
static int ref_CDLHIKKAKE(CDLARGS) { if( inHigh[i-1] < inHigh[i-2] && inLow[i-1] > inLow[i-2] && ( ( inHigh[i] < inHigh[i-1] && inLow[i] < inLow[i-1] ) || ( inHigh[i] > inHigh[i-1] && inLow[i] > inLow[i-1] ) ) ) { patternResult = 100 * ( inHigh[i] < inHigh[i-1] ? 1 : -1 ); patternIdx = i; return patternResult; } else if( i <= patternIdx+3 && ( ( patternResult > 0 && inClose[i] > inHigh[patternIdx-1] ) || ( patternResult < 0 && inClose[i] < inLow[patternIdx-1] ) ) ) { patternIdx = 0; return patternResult + 100 * ( patternResult > 0 ? 1 : -1 ); } else return 0; }
static int lb_CDLHIKKAKEMOD(const Cs* cs) { (void)cs; return max( 1, PER(Near) ) + 5; }
static int ref_CDLHIKKAKEMOD(CDLARGS) { if( inHigh[i-2] < inHigh[i-3] && inLow[i-2] > inLow[i-3] && inHigh[i-1] < inHigh[i-2] && inLow[i-1] > inLow[i-2] && ( ( inHigh[i] < inHigh[i-1] && inLow[i] < inLow[i-1] && inClose[i-2] <= inLow[i-2] + AVG(Near,i-2) ) || ( inHigh[i] > inHigh[i-1] && inLow[i] > inLow[i-1] && inClose[i-2] >= inHigh[i-2] - AVG(Near,i-2) ) ) ) { patternResult = 100 * ( inHigh[i] < inHigh[i-1] ? 1 : -1 ); patternIdx = i; return patternResult; } else if( i <= patternIdx+3 && ( ( patternResult > 0 && inClose[i] > inHigh[patternIdx-1] ) || ( patternResult < 0 && inClose[i] < inLow[patternIdx-1] ) ) ) { patternIdx = 0; return patternResult + 100 * ( patternResult > 0 ? 1 : -1 ); } else return 0; }
static int lb_CDLHOMINGPIGEON(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(BodyLong) ) + 1; }
static int ref_CDLHOMINGPIGEON(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -1 && TA_CANDLECOLOR(i) == -1 && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_REALBODY(i) <= AVG(BodyShort,i) && inOpen[i] < inOpen[i-1] && inClose[i] > inClose[i-1] ) return 100; else return 0; }
static int lb_CDLIDENTICAL3CROWS(const Cs* cs) { (void)cs; return max( PER(ShadowVeryShort), PER(Equal) ) + 2; }
static int ref_CDLIDENTICAL3CROWS(CDLARGS) { if( TA_CANDLECOLOR(i-2) == -1 && TA_LOWERSHADOW(i-2) < AVG(ShadowVeryShort,i-2) && TA_CANDLECOLOR(i-1) == -1 && TA_LOWERSHADOW(i-1) < AVG(ShadowVeryShort,i-1) && TA_CANDLECOLOR(i) == -1 && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) && inClose[i-2] > inClose[i-1] && inClose[i-1] > inClose[i] && inOpen[i-1] <= inClose[i-2] + AVG(Equal,i-2) && inOpen[i-1] >= inClose[i-2] - AVG(Equal,i-2) && inOpen[i] <= inClose[i-1] + AVG(Equal,i-1) && inOpen[i] >= inClose[i-1] - AVG(Equal,i-1) ) return -100; else return 0; }
static int lb_CDLINNECK(const Cs* cs) { (void)cs; return max( PER(Equal), PER(BodyLong) ) + 1; }
static int ref_CDLINNECK(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -1 && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_CANDLECOLOR(i) == 1 && inOpen[i] < inLow[i-1] && inClose[i] <= inClose[i-1] + AVG(Equal,i-1) && inClose[i] >= inClose[i-1] ) return -100; else return 0; }
static int lb_CDLINVERTEDHAMMER(const Cs* cs) { (void)cs; return max( max( PER(BodyShort), PER(ShadowLong) ), PER(ShadowVeryShort) ) + 1; }
static int ref_CDLINVERTEDHAMMER(CDLARGS) { if( TA_REALBODY(i) < AVG(BodyShort,i) && TA_UPPERSHADOW(i) > AVG(ShadowLong,i) && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) && TA_REALBODYGAPDOWN(i, i-1) ) return 100; else return 0; }
static int lb_CDLKICKING(const Cs* cs) { (void)cs; return max( PER(ShadowVeryShort), PER(BodyLong) ) + 1; }
static int ref_CDLKICKING(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -TA_CANDLECOLOR(i) && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_UPPERSHADOW(i-1) < AVG(ShadowVeryShort,i-1) && TA_LOWERSHADOW(i-1) < AVG(ShadowVeryShort,i-1) && TA_REALBODY(i) > AVG(BodyLong,i) && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) && ( ( TA_CANDLECOLOR(i-1) == -1 && TA_CANDLEGAPUP(i,i-1) ) || ( TA_CANDLECOLOR(i-1) == 1 && TA_CANDLEGAPDOWN(i,i-1) ) ) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLKICKINGBYLENGTH(const Cs* cs) { (void)cs; return max( PER(ShadowVeryShort), PER(BodyLong) ) + 1; }
static int ref_CDLKICKINGBYLENGTH(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -TA_CANDLECOLOR(i) && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_UPPERSHADOW(i-1) < AVG(ShadowVeryShort,i-1) && TA_LOWERSHADOW(i-1) < AVG(ShadowVeryShort,i-1) && TA_REALBODY(i) > AVG(BodyLong,i) && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) && ( ( TA_CANDLECOLOR(i-1) == -1 && TA_CANDLEGAPUP(i,i-1) ) || ( TA_CANDLECOLOR(i-1) == 1 && TA_CANDLEGAPDOWN(i,i-1) ) ) ) return TA_CANDLECOLOR( ( TA_REALBODY(i) > TA_REALBODY(i-1) ? i : i-1 ) ) * 100; else return 0; }
static int lb_CDLLADDERBOTTOM(const Cs* cs) { (void)cs; return PER(ShadowVeryShort) + 4; }
static int ref_CDLLADDERBOTTOM(CDLARGS) { if( TA_CANDLECOLOR(i-4) == -1 && TA_CANDLECOLOR(i-3) == -1 && TA_CANDLECOLOR(i-2) == -1 && inOpen[i-4] > inOpen[i-3] && inOpen[i-3] > inOpen[i-2] && inClose[i-4] > inClose[i-3] && inClose[i-3] > inClose[i-2] && TA_CANDLECOLOR(i-1) == -1 && TA_UPPERSHADOW(i-1) > AVG(ShadowVeryShort,i-1) && TA_CANDLECOLOR(i) == 1 && inOpen[i] > inOpen[i-1] && inClose[i] > inHigh[i-1] ) return 100; else return 0; }
static int lb_CDLLONGLEGGEDDOJI(const Cs* cs) { (void)cs; return max( PER(BodyDoji), PER(ShadowLong) ); }
static int ref_CDLLONGLEGGEDDOJI(CDLARGS) { if( TA_REALBODY(i) <= AVG(BodyDoji,i) && ( TA_LOWERSHADOW(i) > AVG(ShadowLong,i) || TA_UPPERSHADOW(i) > AVG(ShadowLong,i) ) ) return 100; else return 0; }
static int lb_CDLLONGLINE(const Cs* cs) { (void)cs; return max( PER(BodyLong), PER(ShadowShort) ); }
static int ref_CDLLONGLINE(CDLARGS) { if( TA_REALBODY(i) > AVG(BodyLong,i) && TA_UPPERSHADOW(i) < AVG(ShadowShort,i) && TA_LOWERSHADOW(i) < AVG(ShadowShort,i) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLMARUBOZU(const Cs* cs) { (void)cs; return max( PER(BodyLong), PER(ShadowVeryShort) ); }
static int ref_CDLMARUBOZU(CDLARGS) { if( TA_REALBODY(i) > AVG(BodyLong,i) && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLMATCHINGLOW(const Cs* cs) { (void)cs; return PER(Equal) + 1; }
static int ref_CDLMATCHINGLOW(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -1 && TA_CANDLECOLOR(i) == -1 && inClose[i] <= inClose[i-1] + AVG(Equal,i-1) && inClose[i] >= inClose[i-1] - AVG(Equal,i-1) ) return 100; else return 0; }
static int lb_CDLMATHOLD(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(BodyLong) ) + 4; }
static int ref_CDLMATHOLD(CDLARGS) { if( TA_REALBODY(i-4) > AVG(BodyLong,i-4) && TA_REALBODY(i-3) < AVG(BodyShort,i-3) && TA_REALBODY(i-2) < AVG(BodyShort,i-2) && TA_REALBODY(i-1) < AVG(BodyShort,i-1) && TA_CANDLECOLOR(i-4) == 1 && TA_CANDLECOLOR(i-3) == -1 && TA_CANDLECOLOR(i) == 1 && TA_REALBODYGAPUP(i-3,i-4) && min(inOpen[i-2], inClose[i-2]) < inClose[i-4] && min(inOpen[i-1], inClose[i-1]) < inClose[i-4] && min(inOpen[i-2], inClose[i-2]) > inClose[i-4] - TA_REALBODY(i-4) * optInPenetration && min(inOpen[i-1], inClose[i-1]) > inClose[i-4] - TA_REALBODY(i-4) * optInPenetration && max(inClose[i-2], inOpen[i-2]) < inOpen[i-3] && max(inClose[i-1], inOpen[i-1]) < max(inClose[i-2], inOpen[i-2]) && inOpen[i] > inClose[i-1] && inClose[i] > max(max(inHigh[i-3], inHigh[i-2]), inHigh[i-1]) ) return 100; else return 0; }
static int lb_CDLMORNINGDOJISTAR(const Cs* cs) { (void)cs; return max( max( PER(BodyDoji), PER(BodyLong) ), PER(BodyShort) ) + 2; }
static int ref_CDLMORNINGDOJISTAR(CDLARGS) { if( TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_CANDLECOLOR(i-2) == -1 && TA_REALBODY(i-1) <= AVG(BodyDoji,i-1) && TA_REALBODYGAPDOWN(i-1,i-2) && TA_REALBODY(i) > AVG(BodyShort,i) && TA_CANDLECOLOR(i) == 1 && inClose[i] > inClose[i-2] + TA_REALBODY(i-2) * optInPenetration ) return 100; else return 0; }
static int lb_CDLMORNINGSTAR(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(BodyLong) ) + 2; }
static int ref_CDLMORNINGSTAR(CDLARGS) { if( TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_CANDLECOLOR(i-2) == -1 && TA_REALBODY(i-1) <= AVG(BodyShort,i-1) && TA_REALBODYGAPDOWN(i-1,i-2) && TA_REALBODY(i) > AVG(BodyShort,i) && TA_CANDLECOLOR(i) == 1 && inClose[i] > inClose[i-2] + TA_REALBODY(i-2) * optInPenetration ) return 100; else return 0; }
static int lb_CDLONNECK(const Cs* cs) { (void)cs; return max( PER(Equal), PER(BodyLong) ) + 1; }
static int ref_CDLONNECK(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -1 && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_CANDLECOLOR(i) == 1 && inOpen[i] < inLow[i-1] && inClose[i] <= inLow[i-1] + AVG(Equal,i-1) && inClose[i] >= inLow[i-1] - AVG(Equal,i-1) ) return -100; else return 0; }
static int lb_CDLPIERCING(const Cs* cs) { (void)cs; return PER(BodyLong) + 1; }
static int ref_CDLPIERCING(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -1 && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_CANDLECOLOR(i) == 1 && TA_REALBODY(i) > AVG(BodyLong,i) && inOpen[i] < inLow[i-1] && inClose[i] < inOpen[i-1] && inClose[i] > inClose[i-1] + TA_REALBODY(i-1) * 0.5 ) return 100; else return 0; }
static int lb_CDLRICKSHAWMAN(const Cs* cs) { (void)cs; return max( max( PER(BodyDoji), PER(ShadowLong) ), PER(Near) ); }
static int ref_CDLRICKSHAWMAN(CDLARGS) { if( TA_REALBODY(i) <= AVG(BodyDoji,i) && TA_LOWERSHADOW(i) > AVG(ShadowLong,i) && TA_UPPERSHADOW(i) > AVG(ShadowLong,i) && ( min( inOpen[i], inClose[i] ) <= inLow[i] + TA_HIGHLOWRANGE(i) / 2 + AVG(Near,i) && max( inOpen[i], inClose[i] ) >= inLow[i] + TA_HIGHLOWRANGE(i) / 2 - AVG(Near,i) ) ) return 100; else return 0; }
static int lb_CDLRISEFALL3METHODS(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(BodyLong) ) + 4; }
static int ref_CDLRISEFALL3METHODS(CDLARGS) { if( TA_REALBODY(i-4) > AVG(BodyLong,i-4) && TA_REALBODY(i-3) < AVG(BodyShort,i-3) && TA_REALBODY(i-2) < AVG(BodyShort,i-2) && TA_REALBODY(i-1) < AVG(BodyShort,i-1) && TA_REALBODY(i) > AVG(BodyLong,i) && TA_CANDLECOLOR(i-4) == -TA_CANDLECOLOR(i-3) && TA_CANDLECOLOR(i-3) == TA_CANDLECOLOR(i-2) && TA_CANDLECOLOR(i-2) == TA_CANDLECOLOR(i-1) && TA_CANDLECOLOR(i-1) == -TA_CANDLECOLOR(i) && min(inOpen[i-3], inClose[i-3]) < inHigh[i-4] && max(inOpen[i-3], inClose[i-3]) > inLow[i-4] && min(inOpen[i-2], inClose[i-2]) < inHigh[i-4] && max(inOpen[i-2], inClose[i-2]) > inLow[i-4] && min(inOpen[i-1], inClose[i-1]) < inHigh[i-4] && max(inOpen[i-1], inClose[i-1]) > inLow[i-4] && inClose[i-2] * TA_CANDLECOLOR(i-4) < inClose[i-3] * TA_CANDLECOLOR(i-4) && inClose[i-1] * TA_CANDLECOLOR(i-4) < inClose[i-2] * TA_CANDLECOLOR(i-4) && inOpen[i] * TA_CANDLECOLOR(i-4) > inClose[i-1] * TA_CANDLECOLOR(i-4) && inClose[i] * TA_CANDLECOLOR(i-4) > inClose[i-4] * TA_CANDLECOLOR(i-4) ) return 100 * TA_CANDLECOLOR(i-4); else return 0; }
static int lb_CDLSEPARATINGLINES(const Cs* cs) { (void)cs; return max( max( PER(ShadowVeryShort), PER(BodyLong) ), PER(Equal) ) + 1; }
static int ref_CDLSEPARATINGLINES(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -TA_CANDLECOLOR(i) && inOpen[i] <= inOpen[i-1] + AVG(Equal,i-1) && inOpen[i] >= inOpen[i-1] - AVG(Equal,i-1) && TA_REALBODY(i) > AVG(BodyLong,i) && ( ( TA_CANDLECOLOR(i) == 1 && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) ) || ( TA_CANDLECOLOR(i) == -1 && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) ) ) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLSHOOTINGSTAR(const Cs* cs) { (void)cs; return max( max( PER(BodyShort), PER(ShadowLong) ), PER(ShadowVeryShort) ) + 1; }
static int ref_CDLSHOOTINGSTAR(CDLARGS) { if( TA_REALBODY(i) < AVG(BodyShort,i) && TA_UPPERSHADOW(i) > AVG(ShadowLong,i) && TA_LOWERSHADOW(i) < AVG(ShadowVeryShort,i) && TA_REALBODYGAPUP(i, i-1) ) return -100; else return 0; }
static int lb_CDLSHORTLINE(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(ShadowShort) ); }
static int ref_CDLSHORTLINE(CDLARGS) { if( TA_REALBODY(i) < AVG(BodyShort,i) && TA_UPPERSHADOW(i) < AVG(ShadowShort,i) && TA_LOWERSHADOW(i) < AVG(ShadowShort,i) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLSPINNINGTOP(const Cs* cs) { (void)cs; return PER(BodyShort); }
static int ref_CDLSPINNINGTOP(CDLARGS) { if( TA_REALBODY(i) < AVG(BodyShort,i) && TA_UPPERSHADOW(i) > TA_REALBODY(i) && TA_LOWERSHADOW(i) > TA_REALBODY(i) ) return TA_CANDLECOLOR(i) * 100; else return 0; }
static int lb_CDLSTALLEDPATTERN(const Cs* cs) { (void)cs; return max( max( PER(BodyLong), PER(BodyShort) ), max( PER(ShadowVeryShort), PER(Near) ) ) + 2; }
static int ref_CDLSTALLEDPATTERN(CDLARGS) { if( TA_CANDLECOLOR(i-2) == 1 && TA_CANDLECOLOR(i-1) == 1 && TA_CANDLECOLOR(i) == 1 && inClose[i] > inClose[i-1] && inClose[i-1] > inClose[i-2] && TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_UPPERSHADOW(i-1) < AVG(ShadowVeryShort,i-1) && inOpen[i-1] > inOpen[i-2] && inOpen[i-1] <= inClose[i-2] + AVG(Near,i-2) && TA_REALBODY(i) < AVG(BodyShort,i) && inOpen[i] >= inClose[i-1] - TA_REALBODY(i) - AVG(Near,i-1) ) return -100; else return 0; }
static int lb_CDLSTICKSANDWICH(const Cs* cs) { (void)cs; return PER(Equal) + 2; }
static int ref_CDLSTICKSANDWICH(CDLARGS) { if( TA_CANDLECOLOR(i-2) == -1 && TA_CANDLECOLOR(i-1) == 1 && TA_CANDLECOLOR(i) == -1 && inLow[i-1] > inClose[i-2] && inClose[i] <= inClose[i-2] + AVG(Equal,i-2) && inClose[i] >= inClose[i-2] - AVG(Equal,i-2) ) return 100; else return 0; }
static int lb_CDLTAKURI(const Cs* cs) { (void)cs; return max( max( PER(BodyDoji), PER(ShadowVeryShort) ), PER(ShadowVeryLong) ); }
static int ref_CDLTAKURI(CDLARGS) { if( TA_REALBODY(i) <= AVG(BodyDoji,i) && TA_UPPERSHADOW(i) < AVG(ShadowVeryShort,i) && TA_LOWERSHADOW(i) > AVG(ShadowVeryLong,i) ) return 100; else return 0; }
static int lb_CDLTASUKIGAP(const Cs* cs) { (void)cs; return PER(Near) + 2; }
static int ref_CDLTASUKIGAP(CDLARGS) { if( ( TA_REALBODYGAPUP(i-1,i-2) && TA_CANDLECOLOR(i-1) == 1 && TA_CANDLECOLOR(i) == -1 && inOpen[i] < inClose[i-1] && inOpen[i] > inOpen[i-1] && inClose[i] < inOpen[i-1] && inClose[i] > max(inClose[i-2], inOpen[i-2]) && std_fabs(TA_REALBODY(i-1) - TA_REALBODY(i)) < AVG(Near,i-1) ) || ( TA_REALBODYGAPDOWN(i-1,i-2) && TA_CANDLECOLOR(i-1) == -1 && TA_CANDLECOLOR(i) == 1 && inOpen[i] < inOpen[i-1] && inOpen[i] > inClose[i-1] && inClose[i] > inOpen[i-1] && inClose[i] < min(inClose[i-2], inOpen[i-2]) && std_fabs(TA_REALBODY(i-1) - TA_REALBODY(i)) < AVG(Near,i-1) ) ) return TA_CANDLECOLOR(i-1) * 100; else return 0; }
static int lb_CDLTHRUSTING(const Cs* cs) { (void)cs; return max( PER(Equal), PER(BodyLong) ) + 1; }
static int ref_CDLTHRUSTING(CDLARGS) { if( TA_CANDLECOLOR(i-1) == -1 && TA_REALBODY(i-1) > AVG(BodyLong,i-1) && TA_CANDLECOLOR(i) == 1 && inOpen[i] < inLow[i-1] && inClose[i] > inClose[i-1] + AVG(Equal,i-1) && inClose[i] <= inClose[i-1] + TA_REALBODY(i-1) * 0.5 ) return -100; else return 0; }
static int lb_CDLTRISTAR(const Cs* cs) { (void)cs; return PER(BodyDoji) + 2; }
static int ref_CDLTRISTAR(CDLARGS) { if( TA_REALBODY(i-2) <= AVG(BodyDoji,i-2) && TA_REALBODY(i-1) <= AVG(BodyDoji,i-2) && TA_REALBODY(i) <= AVG(BodyDoji,i-2) ) { int v = 0; if ( TA_REALBODYGAPUP(i-1,i-2) && max(inOpen[i],inClose[i]) < max(inOpen[i-1],inClose[i-1]) ) v = -100; if ( TA_REALBODYGAPDOWN(i-1,i-2) && min(inOpen[i],inClose[i]) > min(inOpen[i-1],inClose[i-1]) ) v = +100; return v; } else return 0; }
static int lb_CDLUNIQUE3RIVER(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(BodyLong) ) + 2; }
static int ref_CDLUNIQUE3RIVER(CDLARGS) { if( TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_CANDLECOLOR(i-2) == -1 && TA_CANDLECOLOR(i-1) == -1 && inClose[i-1] > inClose[i-2] && inOpen[i-1] <= inOpen[i-2] && inLow[i-1] < inLow[i-2] && TA_REALBODY(i) < AVG(BodyShort,i) && TA_CANDLECOLOR(i) == 1 && inOpen[i] > inLow[i-1] ) return 100; else return 0; }
static int lb_CDLUPSIDEGAP2CROWS(const Cs* cs) { (void)cs; return max( PER(BodyShort), PER(BodyLong) ) + 2; }
static int ref_CDLUPSIDEGAP2CROWS(CDLARGS) { if( TA_CANDLECOLOR(i-2) == 1 && TA_REALBODY(i-2) > AVG(BodyLong,i-2) && TA_CANDLECOLOR(i-1) == -1 && TA_REALBODY(i-1) <= AVG(BodyShort,i-1) && TA_REALBODYGAPUP(i-1,i-2) && TA_CANDLECOLOR(i) == -1 && inOpen[i] > inOpen[i-1] && inClose[i] < inClose[i-1] && inClose[i] > inClose[i-2] ) return -100; else return 0; }
static int lb_CDLXSIDEGAP3METHODS(const Cs* cs) { (void)cs; return 2; }
static int ref_CDLXSIDEGAP3METHODS(CDLARGS) { if( TA_CANDLECOLOR(i-2) == TA_CANDLECOLOR(i-1) && TA_CANDLECOLOR(i-1) == -TA_CANDLECOLOR(i) && inOpen[i] < max(inClose[i-1], inOpen[i-1]) && inOpen[i] > min(inClose[i-1], inOpen[i-1]) && inClose[i] < max(inClose[i-2], inOpen[i-2]) && inClose[i] > min(inClose[i-2], inOpen[i-2]) && ( ( TA_CANDLECOLOR(i-2) == 1 && TA_REALBODYGAPUP(i-1,i-2) ) || ( TA_CANDLECOLOR(i-2) == -1 && TA_REALBODYGAPDOWN(i-1,i-2) ) ) ) return TA_CANDLECOLOR(i-2) * 100; else return 0; }
static const CdlRef CDLREF[] = {
  {"CDL2CROWS", ref_CDL2CROWS, lb_CDL2CROWS, 1u<<TA_BodyLong},
  {"CDL3BLACKCROWS", ref_CDL3BLACKCROWS, lb_CDL3BLACKCROWS, 1u<<TA_ShadowVeryShort},
  {"CDL3INSIDE", ref_CDL3INSIDE, lb_CDL3INSIDE, 1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDL3LINESTRIKE", ref_CDL3LINESTRIKE, lb_CDL3LINESTRIKE, 1u<<TA_Near},
  {"CDL3OUTSIDE", ref_CDL3OUTSIDE, lb_CDL3OUTSIDE, 0},
  {"CDL3STARSINSOUTH", ref_CDL3STARSINSOUTH, lb_CDL3STARSINSOUTH, 1u<<TA_BodyLong|1u<<TA_BodyShort|1u<<TA_ShadowLong|1u<<TA_ShadowVeryShort},
  {"CDL3WHITESOLDIERS", ref_CDL3WHITESOLDIERS, lb_CDL3WHITESOLDIERS, 1u<<TA_BodyShort|1u<<TA_Far|1u<<TA_Near|1u<<TA_ShadowVeryShort},
  {"CDLABANDONEDBABY", ref_CDLABANDONEDBABY, lb_CDLABANDONEDBABY, 1u<<TA_BodyDoji|1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLADVANCEBLOCK", ref_CDLADVANCEBLOCK, lb_CDLADVANCEBLOCK, 1u<<TA_BodyLong|1u<<TA_Far|1u<<TA_Near|1u<<TA_ShadowLong|1u<<TA_ShadowShort},
  {"CDLBELTHOLD", ref_CDLBELTHOLD, lb_CDLBELTHOLD, 1u<<TA_BodyLong|1u<<TA_ShadowVeryShort},
  {"CDLBREAKAWAY", ref_CDLBREAKAWAY, lb_CDLBREAKAWAY, 1u<<TA_BodyLong},
  {"CDLCLOSINGMARUBOZU", ref_CDLCLOSINGMARUBOZU, lb_CDLCLOSINGMARUBOZU, 1u<<TA_BodyLong|1u<<TA_ShadowVeryShort},
  {"CDLCONCEALBABYSWALL", ref_CDLCONCEALBABYSWALL, lb_CDLCONCEALBABYSWALL, 1u<<TA_ShadowVeryShort},
  {"CDLCOUNTERATTACK", ref_CDLCOUNTERATTACK, lb_CDLCOUNTERATTACK, 1u<<TA_BodyLong|1u<<TA_Equal},
  {"CDLDARKCLOUDCOVER", ref_CDLDARKCLOUDCOVER, lb_CDLDARKCLOUDCOVER, 1u<<TA_BodyLong},
  {"CDLDOJI", ref_CDLDOJI, lb_CDLDOJI, 1u<<TA_BodyDoji},
  {"CDLDOJISTAR", ref_CDLDOJISTAR, lb_CDLDOJISTAR, 1u<<TA_BodyDoji|1u<<TA_BodyLong},
  {"CDLDRAGONFLYDOJI", ref_CDLDRAGONFLYDOJI, lb_CDLDRAGONFLYDOJI, 1u<<TA_BodyDoji|1u<<TA_ShadowVeryShort},
  {"CDLENGULFING", ref_CDLENGULFING, lb_CDLENGULFING, 0},
  {"CDLEVENINGDOJISTAR", ref_CDLEVENINGDOJISTAR, lb_CDLEVENINGDOJISTAR, 1u<<TA_BodyDoji|1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLEVENINGSTAR", ref_CDLEVENINGSTAR, lb_CDLEVENINGSTAR, 1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLGAPSIDESIDEWHITE", ref_CDLGAPSIDESIDEWHITE, lb_CDLGAPSIDESIDEWHITE, 1u<<TA_Equal|1u<<TA_Near},
  {"CDLGRAVESTONEDOJI", ref_CDLGRAVESTONEDOJI, lb_CDLGRAVESTONEDOJI, 1u<<TA_BodyDoji|1u<<TA_ShadowVeryShort},
  {"CDLHAMMER", ref_CDLHAMMER, lb_CDLHAMMER, 1u<<TA_BodyShort|1u<<TA_Near|1u<<TA_ShadowLong|1u<<TA_ShadowVeryShort},
  {"CDLHANGINGMAN", ref_CDLHANGINGMAN, lb_CDLHANGINGMAN, 1u<<TA_BodyShort|1u<<TA_Near|1u<<TA_ShadowLong|1u<<TA_ShadowVeryShort},
  {"CDLHARAMI", ref_CDLHARAMI, lb_CDLHARAMI, 1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLHARAMICROSS", ref_CDLHARAMICROSS, lb_CDLHARAMICROSS, 1u<<TA_BodyDoji|1u<<TA_BodyLong},
  {"CDLHIGHWAVE", ref_CDLHIGHWAVE, lb_CDLHIGHWAVE, 1u<<TA_BodyShort|1u<<TA_ShadowVeryLong},
  {"CDLHIKKAKE", ref_CDLHIKKAKE, lb_CDLHIKKAKE, 0},
  {"CDLHIKKAKEMOD", ref_CDLHIKKAKEMOD, lb_CDLHIKKAKEMOD, 1u<<TA_Near},
  {"CDLHOMINGPIGEON", ref_CDLHOMINGPIGEON, lb_CDLHOMINGPIGEON, 1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLIDENTICAL3CROWS", ref_CDLIDENTICAL3CROWS, lb_CDLIDENTICAL3CROWS, 1u<<TA_Equal|1u<<TA_ShadowVeryShort},
  {"CDLINNECK", ref_CDLINNECK, lb_CDLINNECK, 1u<<TA_BodyLong|1u<<TA_Equal},
  {"CDLINVERTEDHAMMER", ref_CDLINVERTEDHAMMER, lb_CDLINVERTEDHAMMER, 1u<<TA_BodyShort|1u<<TA_ShadowLong|1u<<TA_ShadowVeryShort},
  {"CDLKICKING", ref_CDLKICKING, lb_CDLKICKING, 1u<<TA_BodyLong|1u<<TA_ShadowVeryShort},
  {"CDLKICKINGBYLENGTH", ref_CDLKICKINGBYLENGTH, lb_CDLKICKINGBYLENGTH, 1u<<TA_BodyLong|1u<<TA_ShadowVeryShort},
  {"CDLLADDERBOTTOM", ref_CDLLADDERBOTTOM, lb_CDLLADDERBOTTOM, 1u<<TA_ShadowVeryShort},
  {"CDLLONGLEGGEDDOJI", ref_CDLLONGLEGGEDDOJI, lb_CDLLONGLEGGEDDOJI, 1u<<TA_BodyDoji|1u<<TA_ShadowLong},
  {"CDLLONGLINE", ref_CDLLONGLINE, lb_CDLLONGLINE, 1u<<TA_BodyLong|1u<<TA_ShadowShort},
  {"CDLMARUBOZU", ref_CDLMARUBOZU, lb_CDLMARUBOZU, 1u<<TA_BodyLong|1u<<TA_ShadowVeryShort},
  {"CDLMATCHINGLOW", ref_CDLMATCHINGLOW, lb_CDLMATCHINGLOW, 1u<<TA_Equal},
  {"CDLMATHOLD", ref_CDLMATHOLD, lb_CDLMATHOLD, 1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLMORNINGDOJISTAR", ref_CDLMORNINGDOJISTAR, lb_CDLMORNINGDOJISTAR, 1u<<TA_BodyDoji|1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLMORNINGSTAR", ref_CDLMORNINGSTAR, lb_CDLMORNINGSTAR, 1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLONNECK", ref_CDLONNECK, lb_CDLONNECK, 1u<<TA_BodyLong|1u<<TA_Equal},
  {"CDLPIERCING", ref_CDLPIERCING, lb_CDLPIERCING, 1u<<TA_BodyLong},
  {"CDLRICKSHAWMAN", ref_CDLRICKSHAWMAN, lb_CDLRICKSHAWMAN, 1u<<TA_BodyDoji|1u<<TA_Near|1u<<TA_ShadowLong},
  {"CDLRISEFALL3METHODS", ref_CDLRISEFALL3METHODS, lb_CDLRISEFALL3METHODS, 1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLSEPARATINGLINES", ref_CDLSEPARATINGLINES, lb_CDLSEPARATINGLINES, 1u<<TA_BodyLong|1u<<TA_Equal|1u<<TA_ShadowVeryShort},
  {"CDLSHOOTINGSTAR", ref_CDLSHOOTINGSTAR, lb_CDLSHOOTINGSTAR, 1u<<TA_BodyShort|1u<<TA_ShadowLong|1u<<TA_ShadowVeryShort},
  {"CDLSHORTLINE", ref_CDLSHORTLINE, lb_CDLSHORTLINE, 1u<<TA_BodyShort|1u<<TA_ShadowShort},
  {"CDLSPINNINGTOP", ref_CDLSPINNINGTOP, lb_CDLSPINNINGTOP, 1u<<TA_BodyShort},
  {"CDLSTALLEDPATTERN", ref_CDLSTALLEDPATTERN, lb_CDLSTALLEDPATTERN, 1u<<TA_BodyLong|1u<<TA_BodyShort|1u<<TA_Near|1u<<TA_ShadowVeryShort},
  {"CDLSTICKSANDWICH", ref_CDLSTICKSANDWICH, lb_CDLSTICKSANDWICH, 1u<<TA_Equal},
  {"CDLTAKURI", ref_CDLTAKURI, lb_CDLTAKURI, 1u<<TA_BodyDoji|1u<<TA_ShadowVeryLong|1u<<TA_ShadowVeryShort},
  {"CDLTASUKIGAP", ref_CDLTASUKIGAP, lb_CDLTASUKIGAP, 1u<<TA_Near},
  {"CDLTHRUSTING", ref_CDLTHRUSTING, lb_CDLTHRUSTING, 1u<<TA_BodyLong|1u<<TA_Equal},
  {"CDLTRISTAR", ref_CDLTRISTAR, lb_CDLTRISTAR, 1u<<TA_BodyDoji},
  {"CDLUNIQUE3RIVER", ref_CDLUNIQUE3RIVER, lb_CDLUNIQUE3RIVER, 1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLUPSIDEGAP2CROWS", ref_CDLUPSIDEGAP2CROWS, lb_CDLUPSIDEGAP2CROWS, 1u<<TA_BodyLong|1u<<TA_BodyShort},
  {"CDLXSIDEGAP3METHODS", ref_CDLXSIDEGAP3METHODS, lb_CDLXSIDEGAP3METHODS, 0},
};
