package vu

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

func vU16(b []byte) int { return int(b[0])<<8 | int(b[1]) }

// vCount adds a list of n records of the given size, whose number stands at pos in w bytes.
func vCount(d []byte, pos, w, size int) (int, bool) {
	if pos > len(d) || len(d)-pos < w {
		return 0, false
	}
	n := int(d[pos])
	if w == 2 {
		n = vU16(d[pos:])
	}
	return pos + w + n*size, true
}

// vArrays adds n record arrays: type (1), record size (2), number of records (2), records.
func vArrays(d []byte, n int) (int, bool) {
	pos := 0
	for i := 0; i < n; i++ {
		if pos > len(d) || len(d)-pos < 5 {
			return 0, false
		}
		pos += 5 + vU16(d[pos+1:])*vU16(d[pos+3:])
	}
	return pos, true
}

// vSize gives the length of a transfer's value by its layout (Appendix 7, 2.2.6.1 to 2.2.6.6).
func vSize(trep int, d []byte) (int, bool) {
	n, ok := 0, true
	switch trep {
	case 0x00:
		n = 2
	case 0x01:
		if n, ok = vCount(d, 491, 1, 98); ok {
			n, ok = vCount(d, n, 1, 31)
		}
		n += 128
	case 0x02:
		if n, ok = vCount(d, 7, 2, 129); ok {
			if n, ok = vCount(d, n, 2, 2); ok {
				if n, ok = vCount(d, n, 1, 28); ok {
					n, ok = vCount(d, n, 2, 5)
				}
			}
		}
		n += 128
	case 0x03:
		if n, ok = vCount(d, 0, 1, 82); ok {
			if n, ok = vCount(d, n, 1, 83); ok {
				if n, ok = vCount(d, n+9, 1, 31); ok {
					n, ok = vCount(d, n, 1, 98)
				}
			}
		}
		n += 128
	case 0x04:
		n, ok = vCount(d, 0, 2, 64)
		n += 128
	case 0x05:
		n, ok = vCount(d, 136, 1, 167)
		n += 128
	case 0x21, 0x31:
		n, ok = vArrays(d, 11)
	case 0x22:
		n, ok = vArrays(d, 8)
	case 0x32:
		n, ok = vArrays(d, 10)
	case 0x23, 0x33:
		n, ok = vArrays(d, 6)
	case 0x24:
		n, ok = vArrays(d, 2)
	case 0x25, 0x35:
		n, ok = vArrays(d, 8)
	default:
		ok = false
	}
	return n, ok && n <= len(d)
}

func vTransfer(trep int) (vuv1.TransferType, ddv1.Generation) {
	switch trep {
	case 0x00:
		return vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION, ddv1.Generation_GENERATION_2
	case 0x01:
		return vuv1.TransferType_OVERVIEW_GEN1, ddv1.Generation_GENERATION_1
	case 0x02:
		return vuv1.TransferType_ACTIVITIES_GEN1, ddv1.Generation_GENERATION_1
	case 0x03:
		return vuv1.TransferType_EVENTS_AND_FAULTS_GEN1, ddv1.Generation_GENERATION_1
	case 0x04:
		return vuv1.TransferType_DETAILED_SPEED_GEN1, ddv1.Generation_GENERATION_1
	case 0x05:
		return vuv1.TransferType_TECHNICAL_DATA_GEN1, ddv1.Generation_GENERATION_1
	case 0x21:
		return vuv1.TransferType_OVERVIEW_GEN2_V1, ddv1.Generation_GENERATION_2
	case 0x22:
		return vuv1.TransferType_ACTIVITIES_GEN2_V1, ddv1.Generation_GENERATION_2
	case 0x23:
		return vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V1, ddv1.Generation_GENERATION_2
	case 0x24:
		return vuv1.TransferType_DETAILED_SPEED_GEN2, ddv1.Generation_GENERATION_2
	case 0x25:
		return vuv1.TransferType_TECHNICAL_DATA_GEN2_V1, ddv1.Generation_GENERATION_2
	case 0x31:
		return vuv1.TransferType_OVERVIEW_GEN2_V2, ddv1.Generation_GENERATION_2
	case 0x32:
		return vuv1.TransferType_ACTIVITIES_GEN2_V2, ddv1.Generation_GENERATION_2
	case 0x33:
		return vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V2, ddv1.Generation_GENERATION_2
	case 0x35:
		return vuv1.TransferType_TECHNICAL_DATA_GEN2_V2, ddv1.Generation_GENERATION_2
	}
	return 0, 0
}

// vTrep is the transfer's code in the regulation.
func vTrep(t vuv1.TransferType) int {
	switch t {
	case vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION:
		return 0x00
	case vuv1.TransferType_OVERVIEW_GEN1:
		return 0x01
	case vuv1.TransferType_ACTIVITIES_GEN1:
		return 0x02
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN1:
		return 0x03
	case vuv1.TransferType_DETAILED_SPEED_GEN1:
		return 0x04
	case vuv1.TransferType_TECHNICAL_DATA_GEN1:
		return 0x05
	case vuv1.TransferType_CARD_DOWNLOAD:
		return 0x06
	case vuv1.TransferType_OVERVIEW_GEN2_V1:
		return 0x21
	case vuv1.TransferType_ACTIVITIES_GEN2_V1:
		return 0x22
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V1:
		return 0x23
	case vuv1.TransferType_DETAILED_SPEED_GEN2:
		return 0x24
	case vuv1.TransferType_TECHNICAL_DATA_GEN2_V1:
		return 0x25
	case vuv1.TransferType_OVERVIEW_GEN2_V2:
		return 0x31
	case vuv1.TransferType_ACTIVITIES_GEN2_V2:
		return 0x32
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V2:
		return 0x33
	case vuv1.TransferType_TECHNICAL_DATA_GEN2_V2:
		return 0x35
	}
	return -1
}

// vLength is vSize with the card download, whose length is that of the card's files.
func vLength(trep int, d []byte) (int, bool) {
	if trep == 6 {
		return vCards(d)
	}
	return vSize(trep, d)
}

//vc:contract vLength C03 pure
func kLength(trep int, d []byte, n int, ok bool) {
	vc.Assert(!ok || 0 <= n && n <= len(d), "in range")
	t, _ := vTransfer(trep)
	vc.Assert(!ok || t != 0 || trep == 6, "known")
}

// The size function agrees with the layouts.
//
//vc:contract sizeOfTransferValue C01 C03
func kSizeOfTransfer(data []byte, t vuv1.TransferType, size int, err error) {
	n, ok := vLength(vTrep(t), data)
	vc.Assert((err == nil && size <= len(data)) == ok, "accepted when complete")
	vc.Assert(err != nil || 0 <= size && size < 1<<41, "in range")
	vc.Assert(!ok || size == n, "size")
}

// The tag determines the transfer.
//
//vc:lemma C01 C03
func vTransferOfTag(trep byte) {
	t := findTransferTypeByTag(0x7600 | uint16(trep))
	if trep == 6 {
		vc.Assert(t == vuv1.TransferType_CARD_DOWNLOAD, "card download")
		return
	}
	want, gen := vTransfer(int(trep))
	vc.Assert(t == want, "transfer type")
	if t == 0 {
		vc.Reach("unknown")
		vc.Assert(vTrep(t) == -1, "unknown")
		return
	}
	vc.Assert(vTrep(t) == int(trep), "code")
	vc.Assert(generationFromTransferType(t) == gen, "generation")
}

//vc:lemma C03
func vTagPrefix(tag uint16) {
	t := findTransferTypeByTag(tag)
	if tag>>8 != 0x76 {
		vc.Reach("no transfer")
		vc.Assert(t == 0, "unknown")
	}
}

// A vehicle unit file is accepted or rejected, without a panic.
//
//vc:lemma C01
//vc:using sizeOfTransferValue vLength
func vRawVUTotal(data []byte) {
	m, err := unmarshalRawVehicleUnitFile(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

// vCards gives the length of a card download: the card's files, to the end of the data.
func vCards(d []byte) (int, bool) {
	pos := 0
	for i := 0; ; i++ {
		vc.At(i)
		if len(d)-pos < 5 {
			break
		}
		pos += 5 + vU16(d[pos+3:])
		if pos > len(d) {
			return 0, false
		}
	}
	return pos, true
}

// The records of an accepted file are its bytes, one transfer after the other.
//
//vc:lemma C03
//vc:using sizeOfTransferValue vLength
func vRawVUTile(data []byte) {
	m, err := unmarshalRawVehicleUnitFile(data)
	if err != nil {
		return
	}
	pos := 0
	for _, r := range m.GetRecords() {
		vc.Assert(pos+2 <= len(data), "a tag is left")
		tag := vU16(data[pos:])
		vc.Assert(int(r.GetTag()) == tag, "tag")
		vc.Assert(tag>>8 == 0x76, "the tag is a transfer's")
		pos += 2
		n, ok := vLength(tag&0xff, data[pos:])
		if tag&0xff == 6 {
			vc.Reach("card download")
			vc.Assert(r.GetType() == vuv1.TransferType_CARD_DOWNLOAD, "card download")
		} else {
			t, gen := vTransfer(tag & 0xff)
			vc.Assert(r.GetType() == t, "type")
			vc.Assert(r.GetGeneration() == gen, "generation")
		}
		vc.Assert(ok, "complete")
		vc.AssertBytes(r.GetValue(), data[pos:pos+n], "value")
		pos += n
	}
	vc.Reach("tiled")
	vc.Assert(pos == len(data), "nothing is left")
}

// Exactly the files made of complete transfers are accepted.
//
//vc:lemma C03
//vc:using sizeOfTransferValue vLength
func vRawVUAccepted(data []byte) {
	_, err := unmarshalRawVehicleUnitFile(data)
	pos := 0
	for i := 0; pos < len(data); i++ {
		vc.At(i)
		if len(data)-pos < 2 {
			vc.Reach("no tag")
			vc.Assert(err != nil, "an incomplete tag is rejected")
			return
		}
		tag := vU16(data[pos:])
		pos += 2
		n, ok := vLength(tag&0xff, data[pos:])
		ok = ok && tag>>8 == 0x76
		if !ok {
			vc.Reach("incomplete")
			vc.Assert(err != nil, "unknown or incomplete transfers are rejected")
			return
		}
		pos += n
	}
	vc.Reach("complete")
	vc.Assert(err == nil, "complete transfers are accepted")
}

// The superseded decoders of internal/vu: called with a position inside the data.
//
//vc:lemma C01
func vOldSpeedTotal(data []byte, offset int, generation int) {
	vc.Assume(0 <= offset && offset <= len(data))
	_, _ = UnmarshalVuDetailedSpeed(data, offset, &vuv1.DetailedSpeed{}, generation)
}

//vc:lemma C01
func vOldTechnicalTotal(data []byte, offset int, generation int) {
	vc.Assume(0 <= offset && offset <= len(data))
	_, _ = UnmarshalVuTechnicalData(data, offset, &vuv1.TechnicalData{}, generation)
}
