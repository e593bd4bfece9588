add_check(P01)
add_check(P02)
add_check(P04 FRAMERS)
add_check(P05 FRAMERS)
add_check(P06 FRAMERS)
add_check(P07 FRAMERS)
add_check(P08 FRAMERS)
add_check(P09 FRAMERS)
add_check(P14 PART "oem/src/filter.cpp|common/src/(logger|common)|decoders/common/src/common")
add_check(P03 LIB)
add_check(P16 PART "decoders/common/src/(common|message_database|message_decoder|json_db)|common/src/")
add_check(P10 LIB)
add_check(P11 LIB)
add_check(P12 LIB)
add_check(P13 LIB)
add_check(P18 LIB)
add_check(P21 LIB)
add_check(P15 LIB)
add_check(P19 LIB)
add_check(P20 LIB)
add_check(P17 PART "decoders/common/src/(common|message_database|message_decoder|json_db)|common/src/")
add_sched_check(P22 "/common/src/(logger|common|crc|framer)[^/]*[.]cpp$|decoders/common/src/(common|framer)|oem/src/framer")
add_sched_check(P23 ".")
