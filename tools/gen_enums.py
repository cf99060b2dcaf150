#!/usr/bin/env python3
# Writes fw/enums.inc: every named constant of the library's settings with the value the datasheet gives it.
# K( setting of settings.inc or eager.inc, constant, datasheet value )
T=[]
def k(setting,typ,**c):
    for n,v in c.items(): T.append((setting,typ+'::'+n,v))
onoff=dict(off=0,on=1)
k('EE_MODE','mem::eeprom::program::mode',erase_write=0,erase_only=1,write_only=2,reserved3=3)
for s,t in [('EE_READY','mem::eeprom::interrupt::on_ready'),('EE_MASTER','mem::eeprom::enable::master_write')]: k(s,t,**onoff)
for s in ('EI_SENSE1','EI_SENSE0'): k(s,'ei::sense',low=0,change=1,falling_edge=2,rising_edge=3)
clk=dict(none=0,x1=1,x8=2,x64=3,x256=4,x1024=5,ext1_falling_adge=6,ext1_rising_adge=7)
k('T0_CLOCK','tc0::input::clock',**clk); k('T1_CLOCK','tc1::input::clock',**clk)
k('T0_WAVE','tc0::output::waveform',normal=0,pwm_phase_correct=1,ctc_ocr0a=2,ctc=2,fast_pwm=3,reserved4=4,pwm_phase_correct_ocr0a=5,reserved6=6,fast_pwm_ocr0a=7)
k('T1_WAVE','tc1::output::waveform',normal=0,pwm_phase_correct_8bit=1,pwm_phase_correct_9bit=2,pwm_phase_correct_10bit=3,ctc_ocr1a=4,fast_pwm_phase_correct_8bit=5,fast_pwm_phase_correct_9bit=6,fast_pwm_phase_correct_10bit=7,
  pwm_phase_frequency_correct_icr1=8,pwm_phase_frequency_correct_ocr1a=9,pwm_phase_correct_icr1=10,pwm_phase_correct_ocr1a=11,ctc_icr1=12,reserved13=13,fast_pwm_icr1=14,fast_pwm_ocr1a=15)
mode=dict(none=0,toggle=1,clear=2,set=3)
for t in '01':
    for o in 'ab': k(f'T{t}_MODE{o.upper()}',f'tc{t}::output::{o}::mode',**mode)
    k(f'T{t}_IEA',f'tc{t}::enable::interrupt::on::match_a',**onoff); k(f'T{t}_IEB',f'tc{t}::enable::interrupt::on::match_b',**onoff); k(f'T{t}_IEO',f'tc{t}::enable::interrupt::on::overflow',**onoff)
k('T1_IEC','tc1::enable::interrupt::on::capture',**onoff)
k('T1_EDGE','tc1::input::capture::edge',falling=0,rising=1)
k('GT_SYNC','tcp::synchronization',**onoff); k('GT_RES2','tcp::reset::prescaler::tc2',**onoff); k('GT_RES01','tcp::reset::prescaler::tc01',**onoff)
k('TW_ENABLE','twi::enable::interface',**onoff); k('TW_IE','twi::enable::interrupt',**onoff); k('TW_CALL','twi::enable::general_call',**onoff)
k('TW_PRE','twi::control::prescale::factor',x1=0,x4=1,x16=2,x64=3)
k('AC_DIS','ac::disable::analog::comparator',**onoff); k('AC_BG','ac::input::select::bandgap_ref',**onoff); k('AC_IE','ac::enable::interrupt',**onoff); k('AC_CAPT','ac::enable::input::capture',**onoff)
k('AC_ON','ac::output::interrupt::on',toggle=0,reserved1=1,falling_edge=2,rising_edge=3)
k('AD_REF','adc::input::reference',aref=0,avcc=1,reserved=2,intern_1v1=3); k('AD_ADJ','adc::conversion::adjustment',right=0,left=1)
k('AD_CHAN','adc::input::channel',**{f'ch{i}':i for i in range(9)},**{f'reserved{i}':i for i in range(9,14)},internal_1v1=14,gnd=15)
k('AD_ENABLE','adc::enable::adc',**onoff); k('AD_AUTO','adc::enable::auto_trigger',**onoff); k('AD_IE','adc::enable::interrupt',**onoff); k('AD_COMP','adc::enable::comparator',**onoff)
k('AD_PRE','adc::prescale::factor',x02=0,x2=1,x4=2,x8=3,x16=4,x32=5,x64=6,x128=7)
k('AD_TRIG','adc::trigger::on',free_run=0,ac=1,ei0=2,tc0_match_a=3,tc0_overflow=4,tc1_match_b=5,tc1_overflow=6,tc1_capture_event=7)
import os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
open('fw/enums.inc','w').write('// Written by tools/gen_enums.py. K( setting, constant, value in the datasheet )\n'+''.join(f'K( {s}, {c}, {v} )\n' for s,c,v in T))
print(len(T))
