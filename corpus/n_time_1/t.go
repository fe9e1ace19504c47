package times

import "time"

//json:json
type T0 struct {
	F0 time.Time `json:"f0" layout:"Monday, 02-Jan-06 15:04:05 MST"`
	F1 time.Time `json:"f1" layout:"3:04PM"`
	F2 time.Time `json:"f2" layout:"15:04"`
	F3 time.Time `json:"f3" layout:"15:04:05.999999999"`
	F4 time.Time `json:"f4" layout:"January 2"`
	F5 time.Time `json:"f5" layout:"2006"`
	F6 time.Time `json:"f6" layout:"06.1.2"`
	F7 time.Time `json:"f7" layout:"2006-002"`
	F8 time.Time `json:"f8" layout:"15h04'"`
	F9 time.Time `json:"f9" layout:"2006-01-02T15"`
	F10 time.Time `json:"f10" layout:"Z0700 2006"`
}

//json:json
type T1 struct {
	F0 *time.Time `json:"f0" layout:"Monday, 02-Jan-06 15:04:05 MST"`
	F1 *time.Time `json:"f1" layout:"3:04PM"`
	F2 *time.Time `json:"f2" layout:"15:04"`
	F3 *time.Time `json:"f3" layout:"15:04:05.999999999"`
	F4 *time.Time `json:"f4" layout:"January 2"`
	F5 *time.Time `json:"f5" layout:"2006"`
	F6 *time.Time `json:"f6" layout:"06.1.2"`
	F7 *time.Time `json:"f7" layout:"2006-002"`
	F8 *time.Time `json:"f8" layout:"15h04'"`
	F9 *time.Time `json:"f9" layout:"2006-01-02T15"`
	F10 *time.Time `json:"f10" layout:"Z0700 2006"`
}

//json:json
type T2 struct {
	F0 time.Time `json:"f0,omitempty" layout:"Monday, 02-Jan-06 15:04:05 MST"`
	F1 time.Time `json:"f1,omitempty" layout:"3:04PM"`
	F2 time.Time `json:"f2,omitempty" layout:"15:04"`
	F3 time.Time `json:"f3,omitempty" layout:"15:04:05.999999999"`
	F4 time.Time `json:"f4,omitempty" layout:"January 2"`
	F5 time.Time `json:"f5,omitempty" layout:"2006"`
	F6 time.Time `json:"f6,omitempty" layout:"06.1.2"`
	F7 time.Time `json:"f7,omitempty" layout:"2006-002"`
	F8 time.Time `json:"f8,omitempty" layout:"15h04'"`
	F9 time.Time `json:"f9,omitempty" layout:"2006-01-02T15"`
	F10 time.Time `json:"f10,omitempty" layout:"Z0700 2006"`
}

//json:json
type T3 struct {
	F0 *time.Time `json:"f0,omitempty" layout:"Monday, 02-Jan-06 15:04:05 MST"`
	F1 *time.Time `json:"f1,omitempty" layout:"3:04PM"`
	F2 *time.Time `json:"f2,omitempty" layout:"15:04"`
	F3 *time.Time `json:"f3,omitempty" layout:"15:04:05.999999999"`
	F4 *time.Time `json:"f4,omitempty" layout:"January 2"`
	F5 *time.Time `json:"f5,omitempty" layout:"2006"`
	F6 *time.Time `json:"f6,omitempty" layout:"06.1.2"`
	F7 *time.Time `json:"f7,omitempty" layout:"2006-002"`
	F8 *time.Time `json:"f8,omitempty" layout:"15h04'"`
	F9 *time.Time `json:"f9,omitempty" layout:"2006-01-02T15"`
	F10 *time.Time `json:"f10,omitempty" layout:"Z0700 2006"`
}

//json:json
type T4 struct {
	F0 time.Time `json:"f0,required" layout:"Monday, 02-Jan-06 15:04:05 MST"`
	F1 time.Time `json:"f1,required" layout:"3:04PM"`
	F2 time.Time `json:"f2,required" layout:"15:04"`
	F3 time.Time `json:"f3,required" layout:"15:04:05.999999999"`
	F4 time.Time `json:"f4,required" layout:"January 2"`
	F5 time.Time `json:"f5,required" layout:"2006"`
	F6 time.Time `json:"f6,required" layout:"06.1.2"`
	F7 time.Time `json:"f7,required" layout:"2006-002"`
	F8 time.Time `json:"f8,required" layout:"15h04'"`
	F9 time.Time `json:"f9,required" layout:"2006-01-02T15"`
	F10 time.Time `json:"f10,required" layout:"Z0700 2006"`
}

