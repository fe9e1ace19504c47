package times

import "time"

//json:json
type T0 struct {
	F0 time.Time `json:"f0" layout:" 2006-01-02"`
	F1 time.Time `json:"f1" layout:"2006-01-02 "`
	F2 time.Time `json:"f2" layout:"  15:04 "`
	F3 time.Time `json:"f3" layout:"time.2006.01.02"`
	F4 time.Time `json:"f4" layout:"time 15:04"`
	F5 time.Time `json:"f5" layout:"2006.01.02"`
	F6 time.Time `json:"f6" layout:"02.01.06"`
	F7 time.Time `json:"f7" layout:"Time.2006"`
	F8 time.Time `json:"f8" layout:"RFC3339"`
	F9 time.Time `json:"f9" layout:"2006,01,02"`
	F10 time.Time `json:"f10" layout:"2006, Jan"`
	F11 time.Time `json:"f11" layout:"2006%01"`
}

//json:json
type T1 struct {
	F0 *time.Time `json:"f0" layout:" 2006-01-02"`
	F1 *time.Time `json:"f1" layout:"2006-01-02 "`
	F2 *time.Time `json:"f2" layout:"  15:04 "`
	F3 *time.Time `json:"f3" layout:"time.2006.01.02"`
	F4 *time.Time `json:"f4" layout:"time 15:04"`
	F5 *time.Time `json:"f5" layout:"2006.01.02"`
	F6 *time.Time `json:"f6" layout:"02.01.06"`
	F7 *time.Time `json:"f7" layout:"Time.2006"`
	F8 *time.Time `json:"f8" layout:"RFC3339"`
	F9 *time.Time `json:"f9" layout:"2006,01,02"`
	F10 *time.Time `json:"f10" layout:"2006, Jan"`
	F11 *time.Time `json:"f11" layout:"2006%01"`
}

//json:json
type T2 struct {
	F0 time.Time `json:"f0,omitempty" layout:" 2006-01-02"`
	F1 time.Time `json:"f1,omitempty" layout:"2006-01-02 "`
	F2 time.Time `json:"f2,omitempty" layout:"  15:04 "`
	F3 time.Time `json:"f3,omitempty" layout:"time.2006.01.02"`
	F4 time.Time `json:"f4,omitempty" layout:"time 15:04"`
	F5 time.Time `json:"f5,omitempty" layout:"2006.01.02"`
	F6 time.Time `json:"f6,omitempty" layout:"02.01.06"`
	F7 time.Time `json:"f7,omitempty" layout:"Time.2006"`
	F8 time.Time `json:"f8,omitempty" layout:"RFC3339"`
	F9 time.Time `json:"f9,omitempty" layout:"2006,01,02"`
	F10 time.Time `json:"f10,omitempty" layout:"2006, Jan"`
	F11 time.Time `json:"f11,omitempty" layout:"2006%01"`
}

//json:json
type T3 struct {
	F0 *time.Time `json:"f0,omitempty" layout:" 2006-01-02"`
	F1 *time.Time `json:"f1,omitempty" layout:"2006-01-02 "`
	F2 *time.Time `json:"f2,omitempty" layout:"  15:04 "`
	F3 *time.Time `json:"f3,omitempty" layout:"time.2006.01.02"`
	F4 *time.Time `json:"f4,omitempty" layout:"time 15:04"`
	F5 *time.Time `json:"f5,omitempty" layout:"2006.01.02"`
	F6 *time.Time `json:"f6,omitempty" layout:"02.01.06"`
	F7 *time.Time `json:"f7,omitempty" layout:"Time.2006"`
	F8 *time.Time `json:"f8,omitempty" layout:"RFC3339"`
	F9 *time.Time `json:"f9,omitempty" layout:"2006,01,02"`
	F10 *time.Time `json:"f10,omitempty" layout:"2006, Jan"`
	F11 *time.Time `json:"f11,omitempty" layout:"2006%01"`
}

//json:json
type T4 struct {
	F0 time.Time `json:"f0,required" layout:" 2006-01-02"`
	F1 time.Time `json:"f1,required" layout:"2006-01-02 "`
	F2 time.Time `json:"f2,required" layout:"  15:04 "`
	F3 time.Time `json:"f3,required" layout:"time.2006.01.02"`
	F4 time.Time `json:"f4,required" layout:"time 15:04"`
	F5 time.Time `json:"f5,required" layout:"2006.01.02"`
	F6 time.Time `json:"f6,required" layout:"02.01.06"`
	F7 time.Time `json:"f7,required" layout:"Time.2006"`
	F8 time.Time `json:"f8,required" layout:"RFC3339"`
	F9 time.Time `json:"f9,required" layout:"2006,01,02"`
	F10 time.Time `json:"f10,required" layout:"2006, Jan"`
	F11 time.Time `json:"f11,required" layout:"2006%01"`
}

