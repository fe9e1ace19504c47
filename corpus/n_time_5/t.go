package times

import "time"

//json:json
type T0 struct {
	F0 time.Time `json:"f0" layout:"%d 2006"`
	F1 time.Time `json:"f1" layout:"é 2006"`
	F2 time.Time `json:"f2" layout:"T2006"`
	F3 time.Time `json:"f3" layout:"2006-01-02T15:04:05.999999999Z07:00"`
	F4 time.Time `json:"f4" layout:"2006-01-02T15:04:05-07:00"`
	F5 time.Time `json:"f5" layout:"{2006}"`
	F6 time.Time `json:"f6" layout:"2006|01"`
	F7 time.Time `json:"f7" layout:"Jan _2"`
	F8 time.Time `json:"f8" layout:".000"`
	F9 time.Time `json:"f9" layout:"0"`
	F10 time.Time `json:"f10" layout:" 2006"`
	F11 time.Time `json:"f11" layout:"2006-01-02T15:04:05.000000Z"`
}

//json:json
type T1 struct {
	F0 *time.Time `json:"f0" layout:"%d 2006"`
	F1 *time.Time `json:"f1" layout:"é 2006"`
	F2 *time.Time `json:"f2" layout:"T2006"`
	F3 *time.Time `json:"f3" layout:"2006-01-02T15:04:05.999999999Z07:00"`
	F4 *time.Time `json:"f4" layout:"2006-01-02T15:04:05-07:00"`
	F5 *time.Time `json:"f5" layout:"{2006}"`
	F6 *time.Time `json:"f6" layout:"2006|01"`
	F7 *time.Time `json:"f7" layout:"Jan _2"`
	F8 *time.Time `json:"f8" layout:".000"`
	F9 *time.Time `json:"f9" layout:"0"`
	F10 *time.Time `json:"f10" layout:" 2006"`
	F11 *time.Time `json:"f11" layout:"2006-01-02T15:04:05.000000Z"`
}

//json:json
type T2 struct {
	F0 time.Time `json:"f0,omitempty" layout:"%d 2006"`
	F1 time.Time `json:"f1,omitempty" layout:"é 2006"`
	F2 time.Time `json:"f2,omitempty" layout:"T2006"`
	F3 time.Time `json:"f3,omitempty" layout:"2006-01-02T15:04:05.999999999Z07:00"`
	F4 time.Time `json:"f4,omitempty" layout:"2006-01-02T15:04:05-07:00"`
	F5 time.Time `json:"f5,omitempty" layout:"{2006}"`
	F6 time.Time `json:"f6,omitempty" layout:"2006|01"`
	F7 time.Time `json:"f7,omitempty" layout:"Jan _2"`
	F8 time.Time `json:"f8,omitempty" layout:".000"`
	F9 time.Time `json:"f9,omitempty" layout:"0"`
	F10 time.Time `json:"f10,omitempty" layout:" 2006"`
	F11 time.Time `json:"f11,omitempty" layout:"2006-01-02T15:04:05.000000Z"`
}

//json:json
type T3 struct {
	F0 *time.Time `json:"f0,omitempty" layout:"%d 2006"`
	F1 *time.Time `json:"f1,omitempty" layout:"é 2006"`
	F2 *time.Time `json:"f2,omitempty" layout:"T2006"`
	F3 *time.Time `json:"f3,omitempty" layout:"2006-01-02T15:04:05.999999999Z07:00"`
	F4 *time.Time `json:"f4,omitempty" layout:"2006-01-02T15:04:05-07:00"`
	F5 *time.Time `json:"f5,omitempty" layout:"{2006}"`
	F6 *time.Time `json:"f6,omitempty" layout:"2006|01"`
	F7 *time.Time `json:"f7,omitempty" layout:"Jan _2"`
	F8 *time.Time `json:"f8,omitempty" layout:".000"`
	F9 *time.Time `json:"f9,omitempty" layout:"0"`
	F10 *time.Time `json:"f10,omitempty" layout:" 2006"`
	F11 *time.Time `json:"f11,omitempty" layout:"2006-01-02T15:04:05.000000Z"`
}

//json:json
type T4 struct {
	F0 time.Time `json:"f0,required" layout:"%d 2006"`
	F1 time.Time `json:"f1,required" layout:"é 2006"`
	F2 time.Time `json:"f2,required" layout:"T2006"`
	F3 time.Time `json:"f3,required" layout:"2006-01-02T15:04:05.999999999Z07:00"`
	F4 time.Time `json:"f4,required" layout:"2006-01-02T15:04:05-07:00"`
	F5 time.Time `json:"f5,required" layout:"{2006}"`
	F6 time.Time `json:"f6,required" layout:"2006|01"`
	F7 time.Time `json:"f7,required" layout:"Jan _2"`
	F8 time.Time `json:"f8,required" layout:".000"`
	F9 time.Time `json:"f9,required" layout:"0"`
	F10 time.Time `json:"f10,required" layout:" 2006"`
	F11 time.Time `json:"f11,required" layout:"2006-01-02T15:04:05.000000Z"`
}

