// Every deferred setting of the library: S( name, expression with value v, register, highest bit, lowest bit, low 2 bits go to this register (0: no) ).
S( EE_MODE,   set( mem::eeprom::program::mode{ v } ),                 0x3f, 5, 4, 0 )
S( EE_READY,  set( mem::eeprom::interrupt::on_ready{ v } ),           0x3f, 3, 3, 0 )
S( EE_MASTER, set( mem::eeprom::enable::master_write{ v } ),          0x3f, 2, 2, 0 )
S( EE_WRITE,  set( mem::eeprom::enable::write{ v } ),                 0x3f, 1, 1, 0 )
S( EE_READ,   set( mem::eeprom::enable::read{ v } ),                  0x3f, 0, 0, 0 )
S( EI_SENSE1, ei::interrupt_sense<eint::int1>( ei::sense{ v } ),      0x69, 3, 2, 0 )
S( EI_SENSE0, ei::interrupt_sense<eint::int0>( ei::sense{ v } ),      0x69, 1, 0, 0 )
S( T0_CLOCK,  set( tc0::input::clock{ v } ),                          0x45, 2, 0, 0 )
S( T0_WAVE,   set( tc0::output::waveform{ v } ),                      0x45, 3, 3, 0x44 )
S( T0_MODEA,  set( tc0::output::a::mode{ v } ),                       0x44, 7, 6, 0 )
S( T0_MODEB,  set( tc0::output::b::mode{ v } ),                       0x44, 5, 4, 0 )
S( T0_IEA,    set( tc0::enable::interrupt::on::match_a{ v } ),        0x6e, 1, 1, 0 )
S( T0_IEB,    set( tc0::enable::interrupt::on::match_b{ v } ),        0x6e, 2, 2, 0 )
S( T0_IEO,    set( tc0::enable::interrupt::on::overflow{ v } ),       0x6e, 0, 0, 0 )
S( T1_CLOCK,  set( tc1::input::clock{ v } ),                          0x81, 2, 0, 0 )
S( T1_EDGE,   set( tc1::input::capture::edge{ v } ),                  0x81, 6, 6, 0 )
S( T1_WAVE,   set( tc1::output::waveform{ v } ),                      0x81, 4, 3, 0x80 )
S( T1_NOISE,  tc1::enable::capture::input_capture_noise_canceler( v ), 0x81, 7, 7, 0 )
S( T1_MODEA,  set( tc1::output::a::mode{ v } ),                       0x80, 7, 6, 0 )
S( T1_MODEB,  set( tc1::output::b::mode{ v } ),                       0x80, 5, 4, 0 )
S( T1_IEC,    set( tc1::enable::interrupt::on::capture{ v } ),        0x6f, 5, 5, 0 )
S( T1_IEA,    set( tc1::enable::interrupt::on::match_a{ v } ),        0x6f, 1, 1, 0 )
S( T1_IEB,    set( tc1::enable::interrupt::on::match_b{ v } ),        0x6f, 2, 2, 0 )
S( T1_IEO,    set( tc1::enable::interrupt::on::overflow{ v } ),       0x6f, 0, 0, 0 )
S( GT_SYNC,   set( tcp::synchronization{ v } ),                       0x43, 7, 7, 0 )
S( GT_RES2,   set( tcp::reset::prescaler::tc2{ v } ),                 0x43, 1, 1, 0 )
S( GT_RES01,  set( tcp::reset::prescaler::tc01{ v } ),                0x43, 0, 0, 0 )
S( TW_FLAG,   ( (void) v, set( twi::interrupt::flag{} ) ),            0xbc, 7, 7, 0 )
S( TW_ACK,    ( (void) v, set( twi::protocol::ack{} ) ),              0xbc, 6, 6, 0 )
S( TW_START,  ( (void) v, set( twi::protocol::start{} ) ),            0xbc, 5, 5, 0 )
S( TW_STOP,   ( (void) v, set( twi::protocol::stop{} ) ),             0xbc, 4, 4, 0 )
S( TW_ENABLE, set( twi::enable::interface{ v } ),                     0xbc, 2, 2, 0 )
S( TW_IE,     set( twi::enable::interrupt{ v } ),                     0xbc, 0, 0, 0 )
S( TW_ADDR,   set( twi::protocol::address{ v } ),                     0xba, 7, 1, 0 )
S( TW_CALL,   set( twi::enable::general_call{ v } ),                  0xba, 0, 0, 0 )
S( AC_DIS,    set( ac::disable::analog::comparator{ v } ),            0x50, 7, 7, 0 )
S( AC_BG,     set( ac::input::select::bandgap_ref{ v } ),             0x50, 6, 6, 0 )
S( AC_IE,     set( ac::enable::interrupt{ v } ),                      0x50, 3, 3, 0 )
S( AC_CAPT,   set( ac::enable::input::capture{ v } ),                 0x50, 2, 2, 0 )
S( AC_ON,     set( ac::output::interrupt::on{ v } ),                  0x50, 1, 0, 0 )
S( AD_REF,    set( adc::input::reference{ v } ),                      0x7c, 7, 6, 0 )
S( AD_ADJ,    set( adc::conversion::adjustment{ v } ),                0x7c, 5, 5, 0 )
S( AD_CHAN,   set( adc::input::channel{ v } ),                        0x7c, 3, 0, 0 )
S( AD_ENABLE, set( adc::enable::adc{ v } ),                           0x7a, 7, 7, 0 )
S( AD_START,  ( (void) v, adc::conversion::start() ),                 0x7a, 6, 6, 0 )
S( AD_AUTO,   set( adc::enable::auto_trigger{ v } ),                  0x7a, 5, 5, 0 )
S( AD_IE,     set( adc::enable::interrupt{ v } ),                     0x7a, 3, 3, 0 )
S( AD_PRE,    set( adc::prescale::factor{ v } ),                      0x7a, 2, 0, 0 )
S( AD_COMP,   set( adc::enable::comparator{ v } ),                    0x7b, 6, 6, 0 )
S( AD_TRIG,   set( adc::trigger::on{ v } ),                           0x7b, 2, 0, 0 )
S( G0_HI,     ( bitfield8_t< rw_t, 0x3e, 7, 5 >::write_lazy( v ) ),   0x3e, 7, 5, 0 )
S( G0_MID,    ( bitfield8_t< rw_t, 0x3e, 4, 3 >::write_lazy( v ) ),   0x3e, 4, 3, 0 )
S( G0_LOW,    ( bitfield8_t< rw_t, 0x3e, 2, 0 >::write_lazy( v ) ),   0x3e, 2, 0, 0 )
S( U0_HI,     ( bitfield8_t< rw_t, 0xc6, 7, 4 >::write_lazy( v ) ),   0xc6, 7, 4, 0 )
S( U0_BIT,    ( bitfield8_t< rw_t, 0xc6, 2 >::write_lazy( v ) ),      0xc6, 2, 2, 0 )
S( U0_LOW,    ( bitfield8_t< rw_t, 0xc6, 1, 0 >::write_lazy( v ) ),   0xc6, 1, 0, 0 )
