// Every immediate setting of the library: X( name, expression with 16-bit value v, expression reading it back, register, bits of the register, highest bit, lowest bit ).
X( EE_ADDR,   mem::eeprom::set( mem::eeprom::address{ v } ),              mem::eeprom::current( mem::eeprom::address{} ),       0x41, 16, 9, 0 )
X( EE_DATA,   mem::eeprom::set( mem::eeprom::data( v ) ),                 mem::eeprom::current( mem::eeprom::data{} ),          0x40, 8, 7, 0 )
X( EI_EN0,    ei::enable_external_int0( v ),                 ei::enabled_external_int0(),             0x3d, 8, 0, 0 )
X( EI_EN1,    ei::enable_external_int1( v ),                 ei::enabled_external_int1(),             0x3d, 8, 1, 1 )
X( PC_EN0,    ei::enable_pin_change_int0( v ),               ei::enabled_pin_change_int0(),           0x68, 8, 0, 0 )
X( PC_EN1,    ei::enable_pin_change_int1( v ),               ei::enabled_pin_change_int1(),           0x68, 8, 1, 1 )
X( PC_EN2,    ei::enable_pin_change_int2( v ),               ei::enabled_pin_change_int2(),           0x68, 8, 2, 2 )
X( PC_MASK0,  ei::pin_change_interrupt_mask0( v ),           ei::pin_change_interrupt_mask0(),        0x6b, 8, 7, 0 )
X( PC_MASK1,  ei::pin_change_interrupt_mask1( v ),           ei::pin_change_interrupt_mask1(),        0x6c, 8, 6, 0 )
X( PC_MASK2,  ei::pin_change_interrupt_mask2( v ),           ei::pin_change_interrupt_mask2(),        0x6d, 8, 7, 0 )
X( PC_BIT0,   ei::pcmsk<ei::pcmsk0>::bit<5>::write( v ),     ei::pcmsk<ei::pcmsk0>::bit<5>::read(),   0x6b, 8, 5, 5 )
X( PC_BIT1,   ei::pcmsk<ei::pcmsk1>::bit<0>::write( v ),     ei::pcmsk<ei::pcmsk1>::bit<0>::read(),   0x6c, 8, 0, 0 )
X( PC_BIT2,   ei::pcmsk<ei::pcmsk2>::bit<7>::write( v ),     ei::pcmsk<ei::pcmsk2>::bit<7>::read(),   0x6d, 8, 7, 7 )
X( T0_TIMER,  set( tc0::value::timer( v ) ),                 current( tc0::value::timer{} ),          0x46, 8, 7, 0 )
X( T0_A,      set( tc0::value::compare::a( v ) ),            current( tc0::value::compare::a{} ),     0x47, 8, 7, 0 )
X( T0_B,      set( tc0::value::compare::b( v ) ),            current( tc0::value::compare::b{} ),     0x48, 8, 7, 0 )
X( T1_TIMER,  set( tc1::value::timer( v ) ),                 current( tc1::value::timer{} ),          0x84, 16, 15, 0 )
X( T1_A,      set( tc1::value::compare::a( v ) ),            current( tc1::value::compare::a{} ),     0x88, 16, 15, 0 )
X( T1_B,      set( tc1::value::compare::b( v ) ),            current( tc1::value::compare::b{} ),     0x8a, 16, 15, 0 )
X( T1_ICR,    tc1::reg::icr1::whole::write( v ),             tc1::reg::icr1::whole::read(),           0x86, 16, 15, 0 )
X( TW_RATE,   set( twi::control::rate( v ) ),                current( twi::control::rate{} ),         0xb8, 8, 7, 0 )
X( TW_PRE,    set( twi::control::prescale::factor( v ) ),    current( twi::control::prescale::factor{} ), 0xb9, 8, 1, 0 )
X( TW_DATA,   set( twi::protocol::data( v ) ),               current( twi::protocol::data{} ),        0xbb, 8, 7, 0 )
X( TW_CLEAR,  clear( twi::interrupt::flag{} ),             current( twi::interrupt::flag{} ),       0xbc, 8, 7, 7 )
X( TW_COLL,   ( (void) v ),                                current( twi::protocol::wcoll{} ),       0xbc, 8, 3, 3 )
X( EE_ARM,    ( (void) armed() ),                          armed(),                                 0x3f, 8, 2, 2 )
X( TW_MASK,   twi::reg::twamr::twam::write( v ),             twi::reg::twamr::twam::read(),           0xbd, 8, 7, 1 )
X( TW_OWN,    twi::reg::twar::whole::write( v ),             twi::reg::twar::whole::read(),           0xba, 8, 7, 0 )
X( AD_DIDR0,  adc::reg::didr0::write( v ),                   adc::reg::didr0::read(),                 0x7e, 8, 5, 0 )
X( AD_DIDR1,  adc::reg::didr1::write( v ),                   ac::reg::didr1::read(),                  0x7f, 8, 1, 0 )
X( GP_R0,     mem::gpio<mem::r0>::whole::write( v ),         mem::gpio<mem::r0>::whole::read(),       0x3e, 8, 7, 0 )
X( GP_R1,     mem::gpio<mem::r1>::whole::write( v ),         mem::gpio<mem::r1>::whole::read(),       0x4a, 8, 7, 0 )
X( GP_R2,     mem::gpio<mem::r2>::bit<4>::write( v ),        mem::gpio<mem::r2>::bit<4>::read(),      0x4b, 8, 4, 4 )
X( PB_OUT,    gpio<port::B>::port::write( v ),               gpio<port::B>::port::read(),             0x25, 8, 7, 0 )
X( PC_OUT,    gpio<port::C>::port::write( v ),               gpio<port::C>::port::read(),             0x28, 8, 7, 0 )
X( PD_OUT,    gpio<port::D>::port::write( v ),               gpio<port::D>::port::read(),             0x2b, 8, 7, 0 )
X( PB_DIR,    gpio<port::B>::ddr::write( v ),                gpio<port::B>::ddr::read(),              0x24, 8, 7, 0 )
X( PC_DIR,    gpio<port::C>::ddr::write( v ),                gpio<port::C>::ddr::read(),              0x27, 8, 7, 0 )
X( PD_DIR,    gpio<port::D>::ddr::write( v ),                gpio<port::D>::ddr::read(),              0x2a, 8, 7, 0 )
X( PB3_OUT,   gpio<port::B>::p<3>::out::write( v ),          gpio<port::B>::p<3>::out::read(),        0x25, 8, 3, 3 )
X( PC6_DIR,   gpio<port::C>::p<6>::dir::write( v ),          gpio<port::C>::p<6>::dir::read(),        0x27, 8, 6, 6 )
X( PD0_OUT,   gpio<port::D>::p<0>::out::write( v ),          gpio<port::D>::p<0>::out::read(),        0x2b, 8, 0, 0 )
X( LED_B5,    ( v ? led_b5::on() : led_b5::off() ), led_b5::led_t::out::read(), 0x25, 8, 5, 5 )
X( LED_D7,    ( v ? led_d7::on() : led_d7::off() ), led_d7::led_t::out::read(), 0x2b, 8, 7, 7 )
X( LED_EN,    ( (void) v, led_c2::enable() ),        led_c2::led_t::dir::read(),      0x27, 8, 2, 2 )
X( LED_TOG,   ( (void) v, led_b5::toggle() ),        led_b5::led_t::out::read(),      0x25, 8, 5, 5 )
X( PIN_B,     gpio<port::B>::pin::write( v ),                gpio<port::B>::pin::read(),              0x23, 8, 7, 0 )
X( PIN_D4,    ( (void) v, gpio<port::D>::p<4>::inp::set() ), gpio<port::D>::p<4>::inp::read(),        0x29, 8, 4, 4 )
X( T0_FA,     ( (void) v, set( tc0::control::compare::force::a{} ) ), 0, 0x45, 8, 7, 7 )
X( T0_FB,     ( (void) v, set( tc0::control::compare::force::b{} ) ), 0, 0x45, 8, 6, 6 )
X( T1_FA,     ( (void) v, set( tc1::control::compare::force::a{} ) ), 0, 0x82, 8, 7, 7 )
X( T1_FB,     ( (void) v, set( tc1::control::compare::force::b{} ) ), 0, 0x82, 8, 6, 6 )
X( PWM_INIT,  ( (void) v, tc1_pwm_on_a_pb1::init() ),        0, 0x80, 8, 0, 0 )
X( PWM_OUT,   tc1_pwm_on_a_pb1::write( v ),                  tc1::reg::ocr1a::whole::read(),          0x88, 16, 15, 0 )
X( AC_STATE,  (void) v,                                      current( ac::output::state{} ),          0x50, 8, 5, 5 )
