// How the deferred settings of settings.inc read back: R( setting, expression ).
R( EE_MODE,   current( mem::eeprom::program::mode{} ) )
R( EE_READY,  current( mem::eeprom::interrupt::on_ready{} ) )
R( EI_SENSE1, ei::interrupt_sense<eint::int1>() )
R( EI_SENSE0, ei::interrupt_sense<eint::int0>() )
R( T0_CLOCK,  current( tc0::input::clock{} ) )
R( T0_WAVE,   current( tc0::output::waveform{} ) )
R( T0_MODEA,  current( tc0::output::a::mode{} ) )
R( T0_MODEB,  current( tc0::output::b::mode{} ) )
R( T0_IEA,    current( tc0::enable::interrupt::on::match_a{} ) )
R( T0_IEB,    current( tc0::enable::interrupt::on::match_b{} ) )
R( T0_IEO,    current( tc0::enable::interrupt::on::overflow{} ) )
R( T1_CLOCK,  current( tc1::input::clock{} ) )
R( T1_EDGE,   current( tc1::input::capture::edge{} ) )
R( T1_WAVE,   current( tc1::output::waveform{} ) )
R( T1_NOISE,  tc1::enable::capture::input_capture_noise_canceler() )
R( T1_MODEA,  current( tc1::output::a::mode{} ) )
R( T1_MODEB,  current( tc1::output::b::mode{} ) )
R( T1_IEC,    current( tc1::enable::interrupt::on::capture{} ) )
R( T1_IEA,    current( tc1::enable::interrupt::on::match_a{} ) )
R( T1_IEB,    current( tc1::enable::interrupt::on::match_b{} ) )
R( T1_IEO,    current( tc1::enable::interrupt::on::overflow{} ) )
R( GT_SYNC,   current( tcp::synchronization{} ) )
R( GT_RES2,   current( tcp::reset::prescaler::tc2{} ) )
R( GT_RES01,  current( tcp::reset::prescaler::tc01{} ) )
R( EE_READ,   current( mem::eeprom::enable::read{} ) )
R( TW_FLAG,   current( twi::interrupt::flag{} ) )
R( TW_START,  current( twi::protocol::start{} ) )
R( TW_STOP,   current( twi::protocol::stop{} ) )
R( TW_ACK,    current( twi::protocol::ack{} ) )
R( TW_ENABLE, current( twi::enable::interface{} ) )
R( TW_IE,     current( twi::enable::interrupt{} ) )
R( TW_ADDR,   current( twi::protocol::address{} ) )
R( TW_CALL,   current( twi::enable::general_call{} ) )
R( AC_DIS,    current( ac::disable::analog::comparator{} ) )
R( AC_BG,     current( ac::input::select::bandgap_ref{} ) )
R( AC_IE,     current( ac::enable::interrupt{} ) )
R( AC_CAPT,   current( ac::enable::input::capture{} ) )
R( AC_ON,     current( ac::output::interrupt::on{} ) )
R( AD_REF,    current( adc::input::reference{} ) )
R( AD_ADJ,    current( adc::conversion::adjustment{} ) )
R( AD_CHAN,   current( adc::input::channel{} ) )
R( AD_ENABLE, current( adc::enable::adc{} ) )
R( AD_AUTO,   current( adc::enable::auto_trigger{} ) )
R( AD_IE,     current( adc::enable::interrupt{} ) )
R( AD_PRE,    current( adc::prescale::factor{} ) )
R( AD_COMP,   current( adc::enable::comparator{} ) )
R( AD_TRIG,   current( adc::trigger::on{} ) )
R( G0_HI,     ( bitfield8_t< rw_t, 0x3e, 7, 5 >::read() ) )
R( G0_MID,    ( bitfield8_t< rw_t, 0x3e, 4, 3 >::read() ) )
R( G0_LOW,    ( bitfield8_t< rw_t, 0x3e, 2, 0 >::read() ) )
R( U0_HI,     ( bitfield8_t< rw_t, 0xc6, 7, 4 >::read() ) )
R( U0_BIT,    ( bitfield8_t< rw_t, 0xc6, 2 >::read() ) )
R( U0_LOW,    ( bitfield8_t< rw_t, 0xc6, 1, 0 >::read() ) )
