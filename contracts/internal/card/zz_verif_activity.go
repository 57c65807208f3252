package card

import "github.com/way-platform/tachograph-go/internal/vc"

// vWrap is byte i of the cyclic buffer b, i in [0, 2*len(b)).
func vWrap(b []byte, i int) int {
	if i >= len(b) {
		i -= len(b)
	}
	return int(b[i])
}

// The daily records are the chain of records that ends at the newest-record pointer, oldest first.
//
//vc:lemma C11
func vActivityWalk(data []byte) {
	m, err := UnmarshalOptions{}.unmarshalDriverActivityData(data)
	if err != nil {
		return
	}
	vc.Assert(len(data) >= 4, "both pointers are there")
	vc.Assert(int(m.GetOldestDayRecordIndex()) == vU16(data[0:]), "oldest pointer")
	vc.Assert(int(m.GetNewestDayRecordIndex()) == vU16(data[2:]), "newest pointer")
	buf := data[4:]
	recs := m.GetDailyRecords()
	pos, k := vU16(data[2:]), 0
	for {
		vc.At(k)
		if pos < 0 || pos >= len(buf) || len(buf) < 4 {
			break
		}
		prev := vWrap(buf, pos)<<8 | vWrap(buf, pos+1)
		size := vWrap(buf, pos+2)<<8 | vWrap(buf, pos+3)
		if size == 0 {
			break
		}
		vc.Assert(size >= 4 && size <= len(buf), "the record lies in the buffer")
		vc.Assert(k < len(recs), "every record of the chain is returned")
		r := recs[len(recs)-1-k]
		if r.GetValid() {
			vc.Reach("valid")
			vc.Assert(size >= 12, "a valid record has all its fields")
			vc.Assert(int(r.GetActivityPreviousRecordLength()) == prev, "previous length")
			vc.Assert(int(r.GetActivityRecordLength()) == size, "length")
			vc.Assert(r.GetActivityRecordDate().GetSeconds() == int64(vWrap(buf, pos+4))<<24|int64(vWrap(buf, pos+5))<<16|int64(vWrap(buf, pos+6))<<8|int64(vWrap(buf, pos+7)), "date")
			vc.Assert(int(r.GetActivityDayDistance()) == vWrap(buf, pos+10)<<8|vWrap(buf, pos+11), "distance")
		} else {
			vc.Reach("invalid")
			vc.Assert(len(r.GetRawData()) == size, "raw length")
		}
		k++
		if prev == 0 {
			break
		}
		pos -= prev
		if pos < 0 {
			pos += len(buf)
		}
	}
	vc.Reach("walked")
	vc.Assert(k == len(recs), "nothing but the chain is returned")
}

//vc:lemma C11
func vActivityChain(data []byte) {
	m, err := UnmarshalOptions{}.unmarshalDriverActivityData(data)
	if err != nil {
		return
	}
	buf := data[4:]
	recs := m.GetDailyRecords()
	pos, k := vU16(data[2:]), 0
	for {
		vc.At(k)
		if pos < 0 || pos >= len(buf) || len(buf) < 4 {
			break
		}
		prev := vWrap(buf, pos)<<8 | vWrap(buf, pos+1)
		size := vWrap(buf, pos+2)<<8 | vWrap(buf, pos+3)
		if size == 0 {
			break
		}
		vc.Assert(size >= 4 && size <= len(buf), "the record lies in the buffer")
		vc.Assert(k < len(recs), "every record of the chain is returned")
		k++
		if prev == 0 {
			break
		}
		pos -= prev
		if pos < 0 {
			pos += len(buf)
		}
	}
	vc.Reach("walked")
	vc.Assert(k == len(recs), "nothing but the chain is returned")
}
