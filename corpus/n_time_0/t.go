package times

import "time"

//json:json
type T0 struct {
	F0 time.Time `json:"f0" layout:"2006-01-02"`
	F1 time.Time `json:"f1" layout:"2006-01-02 15:04:05"`
	F2 time.Time `json:"f2" layout:"2006-01-02 15:04:05.000"`
	F3 time.Time `json:"f3" layout:"2006-01-02T15:04:05"`
	F4 time.Time `json:"f4" layout:"2006-01-02T15:04:05Z07:00"`
	F5 time.Time `json:"f5" layout:"20060102"`
	F6 time.Time `json:"f6" layout:"20060102150405"`
	F7 time.Time `json:"f7" layout:"01/02/2006"`
	F8 time.Time `json:"f8" layout:"1/2/06"`
	F9 time.Time `json:"f9" layout:"02-Jan-2006"`
	F10 time.Time `json:"f10" layout:"02 Jan 06 15:04 MST"`
}

//json:json
type T1 struct {
	F0 *time.Time `json:"f0" layout:"2006-01-02"`
	F1 *time.Time `json:"f1" layout:"2006-01-02 15:04:05"`
	F2 *time.Time `json:"f2" layout:"2006-01-02 15:04:05.000"`
	F3 *time.Time `json:"f3" layout:"2006-01-02T15:04:05"`
	F4 *time.Time `json:"f4" layout:"2006-01-02T15:04:05Z07:00"`
	F5 *time.Time `json:"f5" layout:"20060102"`
	F6 *time.Time `json:"f6" layout:"20060102150405"`
	F7 *time.Time `json:"f7" layout:"01/02/2006"`
	F8 *time.Time `json:"f8" layout:"1/2/06"`
	F9 *time.Time `json:"f9" layout:"02-Jan-2006"`
	F10 *time.Time `json:"f10" layout:"02 Jan 06 15:04 MST"`
}

//json:json
type T2 struct {
	F0 time.Time `json:"f0,omitempty" layout:"2006-01-02"`
	F1 time.Time `json:"f1,omitempty" layout:"2006-01-02 15:04:05"`
	F2 time.Time `json:"f2,omitempty" layout:"2006-01-02 15:04:05.000"`
	F3 time.Time `json:"f3,omitempty" layout:"2006-01-02T15:04:05"`
	F4 time.Time `json:"f4,omitempty" layout:"2006-01-02T15:04:05Z07:00"`
	F5 time.Time `json:"f5,omitempty" layout:"20060102"`
	F6 time.Time `json:"f6,omitempty" layout:"20060102150405"`
	F7 time.Time `json:"f7,omitempty" layout:"01/02/2006"`
	F8 time.Time `json:"f8,omitempty" layout:"1/2/06"`
	F9 time.Time `json:"f9,omitempty" layout:"02-Jan-2006"`
	F10 time.Time `json:"f10,omitempty" layout:"02 Jan 06 15:04 MST"`
}

//json:json
type T3 struct {
	F0 *time.Time `json:"f0,omitempty" layout:"2006-01-02"`
	F1 *time.Time `json:"f1,omitempty" layout:"2006-01-02 15:04:05"`
	F2 *time.Time `json:"f2,omitempty" layout:"2006-01-02 15:04:05.000"`
	F3 *time.Time `json:"f3,omitempty" layout:"2006-01-02T15:04:05"`
	F4 *time.Time `json:"f4,omitempty" layout:"2006-01-02T15:04:05Z07:00"`
	F5 *time.Time `json:"f5,omitempty" layout:"20060102"`
	F6 *time.Time `json:"f6,omitempty" layout:"20060102150405"`
	F7 *time.Time `json:"f7,omitempty" layout:"01/02/2006"`
	F8 *time.Time `json:"f8,omitempty" layout:"1/2/06"`
	F9 *time.Time `json:"f9,omitempty" layout:"02-Jan-2006"`
	F10 *time.Time `json:"f10,omitempty" layout:"02 Jan 06 15:04 MST"`
}

//json:json
type T4 struct {
	F0 time.Time `json:"f0,required" layout:"2006-01-02"`
	F1 time.Time `json:"f1,required" layout:"2006-01-02 15:04:05"`
	F2 time.Time `json:"f2,required" layout:"2006-01-02 15:04:05.000"`
	F3 time.Time `json:"f3,required" layout:"2006-01-02T15:04:05"`
	F4 time.Time `json:"f4,required" layout:"2006-01-02T15:04:05Z07:00"`
	F5 time.Time `json:"f5,required" layout:"20060102"`
	F6 time.Time `json:"f6,required" layout:"20060102150405"`
	F7 time.Time `json:"f7,required" layout:"01/02/2006"`
	F8 time.Time `json:"f8,required" layout:"1/2/06"`
	F9 time.Time `json:"f9,required" layout:"02-Jan-2006"`
	F10 time.Time `json:"f10,required" layout:"02 Jan 06 15:04 MST"`
}

