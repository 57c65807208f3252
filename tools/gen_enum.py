#!/usr/bin/env python3
# Writes the C08 lemmas: for every enumeration with protocol codes, the code table of the regulation (Annex 1C,
# appendix 1), written out literally, against UnmarshalEnum and MarshalEnum.
T = {
 "Generation": [("GENERATION_1",1),("GENERATION_2",2)],
 "CompanyActivityType": [("CARD_DOWNLOADING",1),("VU_DOWNLOADING",2),("VU_LOCK_IN",3),("VU_LOCK_OUT",4)],
 "EquipmentType": list(zip("RESERVED_MEMBER_STATE_OR_EUROPE DRIVER_CARD WORKSHOP_CARD CONTROL_CARD COMPANY_CARD MANUFACTURING_CARD VEHICLE_UNIT MOTION_SENSOR GNSS_FACILITY REMOTE_COMMUNICATION_MODULE ITS_INTERFACE_MODULE PLAQUE M1_N1_ADAPTER EUROPEAN_ROOT_CA MEMBER_STATE_CA EXTERNAL_GNSS_CONNECTION UNUSED DRIVER_CARD_SIGN WORKSHOP_CARD_SIGN VEHICLE_UNIT_SIGN".split(), range(20))),
 "SlotCardType": list(zip("NO_CARD DRIVER_CARD_INSERTED WORKSHOP_CARD_INSERTED CONTROL_CARD_INSERTED COMPANY_CARD_INSERTED".split(), range(5))),
 "CardSlotNumber": [("DRIVER_SLOT",0),("CO_DRIVER_SLOT",1)],
 "PositionAuthenticationStatus": [("NOT_AUTHENTICATED",0),("AUTHENTICATED",1)],
 "SpecificConditionType": list(zip("RFU OUT_OF_SCOPE_BEGIN OUT_OF_SCOPE_END FERRY_TRAIN_CROSSING_BEGIN FERRY_TRAIN_CROSSING_END".split(), range(5))),
 "DriverActivityValue": list(zip("BREAK_REST AVAILABILITY WORK DRIVING".split(), range(4))),
 "ClockStopMode": list(zip("NOT_ALLOWED ALLOWED_NO_PREFERENCE ALLOWED_ONLY_HIGH_LEVEL ALLOWED_HIGH_LEVEL_PREFERRED ALLOWED_ONLY_LOW_LEVEL ALLOWED_LOW_LEVEL_PREFERRED".split(), range(6))),
 "CalibrationPurpose": list(zip("CALIBRATION_PURPOSE_RESERVED ACTIVATION FIRST_INSTALLATION INSTALLATION PERIODIC_INSPECTION VRN_ENTRY_BY_COMPANY TIME_ADJUSTMENT".split(), range(7))),
 "DrivingStatus": [("SINGLE",0),("CREW",1)],
 "EventFaultRecordPurpose": list(zip("TEN_MOST_RECENT LONGEST_IN_LAST_10_DAYS FIVE_LONGEST_IN_LAST_365_DAYS LAST_IN_LAST_10_DAYS MOST_SERIOUS_IN_LAST_10_DAYS FIVE_MOST_SERIOUS_IN_LAST_365_DAYS FIRST_AFTER_LAST_CALIBRATION ACTIVE_OR_ONGOING".split(), range(8))),
 "OperationType": [("LOAD_OPERATION",1),("UNLOAD_OPERATION",2),("SIMULTANEOUS_LOAD_UNLOAD_OPERATION",3)],
 "LoadType": [("NOT_DEFINED",0),("GOODS",1),("PASSENGERS",2)],
 "EntryTypeDailyWorkPeriod": list(zip("BEGIN END BEGIN_GNSS END_GNSS BEGIN_ITS END_ITS".split(), range(6))),
 "EventFaultType": list(zip("GENERAL_NO_FURTHER_DETAILS GENERAL_INSERTION_OF_NON_VALID_CARD GENERAL_CARD_CONFLICT GENERAL_TIME_OVERLAP GENERAL_DRIVING_WITHOUT_APPROPRIATE_CARD GENERAL_CARD_INSERTION_WHILE_DRIVING GENERAL_LAST_CARD_SESSION_NOT_CORRECTLY_CLOSED GENERAL_OVER_SPEEDING GENERAL_POWER_SUPPLY_INTERRUPTION GENERAL_MOTION_DATA_ERROR GENERAL_VEHICLE_MOTION_CONFLICT GENERAL_TIME_CONFLICT_GNSS_VS_VU GENERAL_COMM_ERROR_REMOTE_COMM_FACILITY GENERAL_ABSENCE_OF_POSITION_INFO_FROM_GNSS GENERAL_COMM_ERROR_EXTERNAL_GNSS_FACILITY GENERAL_GNSS_ANOMALY".split(), range(0,16)))
  + list(zip("VU_SEC_NO_FURTHER_DETAILS VU_SEC_MOTION_SENSOR_AUTH_FAILURE VU_SEC_TACHOGRAPH_CARD_AUTH_FAILURE VU_SEC_UNAUTHORISED_CHANGE_OF_MOTION_SENSOR VU_SEC_CARD_DATA_INPUT_INTEGRITY_ERROR VU_SEC_STORED_USER_DATA_INTEGRITY_ERROR VU_SEC_INTERNAL_DATA_TRANSFER_ERROR VU_SEC_UNAUTHORISED_CASE_OPENING VU_SEC_HARDWARE_SABOTAGE VU_SEC_TAMPER_DETECTION_OF_GNSS VU_SEC_EXTERNAL_GNSS_FACILITY_AUTH_FAILURE VU_SEC_EXTERNAL_GNSS_FACILITY_CERT_EXPIRED VU_SEC_INCONSISTENCY_MOTION_VS_ACTIVITY".split(), range(0x10,0x1d)))
  + list(zip("SENSOR_SEC_NO_FURTHER_DETAILS SENSOR_SEC_AUTHENTICATION_FAILURE SENSOR_SEC_STORED_DATA_INTEGRITY_ERROR SENSOR_SEC_INTERNAL_DATA_TRANSFER_ERROR SENSOR_SEC_UNAUTHORISED_CASE_OPENING SENSOR_SEC_HARDWARE_SABOTAGE".split(), range(0x20,0x26)))
  + list(zip("FAULT_REC_EQ_NO_FURTHER_DETAILS FAULT_REC_EQ_VU_INTERNAL_FAULT FAULT_REC_EQ_PRINTER_FAULT FAULT_REC_EQ_DISPLAY_FAULT FAULT_REC_EQ_DOWNLOADING_FAULT FAULT_REC_EQ_SENSOR_FAULT FAULT_REC_EQ_INTERNAL_GNSS_RECEIVER FAULT_REC_EQ_EXTERNAL_GNSS_FACILITY FAULT_REC_EQ_REMOTE_COMM_FACILITY FAULT_REC_EQ_ITS_INTERFACE FAULT_REC_EQ_INTERNAL_SENSOR_FAULT".split(), range(0x30,0x3b)))
  + [("FAULT_CARD_NO_FURTHER_DETAILS",0x40)],
 "NationNumeric": [("NATION_NUMERIC_DEFAULT",0)] + list(zip("AUSTRIA ALBANIA ANDORRA ARMENIA AZERBAIJAN BELGIUM BULGARIA BOSNIA_HERZEGOVINA BELARUS SWITZERLAND CYPRUS CZECH_REPUBLIC GERMANY DENMARK SPAIN ESTONIA FRANCE FINLAND LIECHTENSTEIN FAROE_ISLANDS UNITED_KINGDOM GEORGIA GREECE HUNGARY CROATIA ITALY IRELAND ICELAND KAZAKHSTAN LUXEMBOURG LITHUANIA LATVIA MALTA MONACO MOLDOVA NORTH_MACEDONIA NORWAY NETHERLANDS PORTUGAL POLAND ROMANIA SAN_MARINO RUSSIA SWEDEN SLOVAKIA SLOVENIA TURKMENISTAN TURKEY UKRAINE VATICAN_CITY".split(), range(1,51)))
  + [("SERBIA",53),("MONTENEGRO",54),("KYRGYZ_REPUBLIC",56),("EUROPEAN_COMMUNITY",253),("REST_OF_WORLD",254),("NATION_NUMERIC_EMPTY",255)],
}
out = ['// Code generated by tools/gen_enum.py; DO NOT EDIT.','','package dd','','import (','\t"github.com/way-platform/tachograph-go/internal/vc"','\tddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"',')','']
for n,t in T.items():
    out.append(f"// vTable{n} is the regulation's code table.\nfunc vTable{n}(b byte) (ddv1.{n}, bool) {{\n\tswitch b {{")
    for e,c in t:
        out.append(f"\tcase {c:#04x}:\n\t\treturn ddv1.{n}_{e}, true")
    out.append("\t}\n\treturn 0, false\n}\n")
    out.append(f"""//vc:lemma C08
func vEnum{n}Decode(b byte) {{
	want, defined := vTable{n}(b)
	got, err := UnmarshalEnum[ddv1.{n}](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {{
		vc.Reach("undefined code")
		return
	}}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}}

//vc:lemma C08
func vEnum{n}Encode(v ddv1.{n}) {{
	b, err := MarshalEnum(v)
	if err != nil {{
		vc.Assert(v < 2 || v > {len(t)+(0 if n=="Generation" else 1)}, "every defined enumerator is encoded")
		return
	}}
	vc.Reach("encoded")
	want, defined := vTable{n}(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.{n}](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}}
""".replace("v < 2 ||", "v < 1 ||" if n=="Generation" else "v < 2 ||"))
open(__import__("os").path.dirname(__import__("os").path.abspath(__file__))+"/../contracts/internal/dd/zz_verif_enum.go","w").write("\n".join(out))
