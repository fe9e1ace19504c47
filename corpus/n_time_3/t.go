package times

import "time"

//json:json
type T0 struct {
	F0 time.Time `json:"f0" layout:"time.RFC3339Nano"`
	F1 time.Time `json:"f1" layout:"time.Kitchen"`
	F2 time.Time `json:"f2" layout:"time.Stamp"`
	F3 time.Time `json:"f3" layout:"time.StampMilli"`
	F4 time.Time `json:"f4" layout:"time.StampMicro"`
	F5 time.Time `json:"f5" layout:"time.StampNano"`
	F6 time.Time `json:"f6" layout:"time.DateTime"`
	F7 time.Time `json:"f7" layout:"time.DateOnly"`
	F8 time.Time `json:"f8" layout:"time.TimeOnly"`
}

//json:json
type T1 struct {
	F0 *time.Time `json:"f0" layout:"time.RFC3339Nano"`
	F1 *time.Time `json:"f1" layout:"time.Kitchen"`
	F2 *time.Time `json:"f2" layout:"time.Stamp"`
	F3 *time.Time `json:"f3" layout:"time.StampMilli"`
	F4 *time.Time `json:"f4" layout:"time.StampMicro"`
	F5 *time.Time `json:"f5" layout:"time.StampNano"`
	F6 *time.Time `json:"f6" layout:"time.DateTime"`
	F7 *time.Time `json:"f7" layout:"time.DateOnly"`
	F8 *time.Time `json:"f8" layout:"time.TimeOnly"`
}

//json:json
type T2 struct {
	F0 time.Time `json:"f0,omitempty" layout:"time.RFC3339Nano"`
	F1 time.Time `json:"f1,omitempty" layout:"time.Kitchen"`
	F2 time.Time `json:"f2,omitempty" layout:"time.Stamp"`
	F3 time.Time `json:"f3,omitempty" layout:"time.StampMilli"`
	F4 time.Time `json:"f4,omitempty" layout:"time.StampMicro"`
	F5 time.Time `json:"f5,omitempty" layout:"time.StampNano"`
	F6 time.Time `json:"f6,omitempty" layout:"time.DateTime"`
	F7 time.Time `json:"f7,omitempty" layout:"time.DateOnly"`
	F8 time.Time `json:"f8,omitempty" layout:"time.TimeOnly"`
}

//json:json
type T3 struct {
	F0 *time.Time `json:"f0,omitempty" layout:"time.RFC3339Nano"`
	F1 *time.Time `json:"f1,omitempty" layout:"time.Kitchen"`
	F2 *time.Time `json:"f2,omitempty" layout:"time.Stamp"`
	F3 *time.Time `json:"f3,omitempty" layout:"time.StampMilli"`
	F4 *time.Time `json:"f4,omitempty" layout:"time.StampMicro"`
	F5 *time.Time `json:"f5,omitempty" layout:"time.StampNano"`
	F6 *time.Time `json:"f6,omitempty" layout:"time.DateTime"`
	F7 *time.Time `json:"f7,omitempty" layout:"time.DateOnly"`
	F8 *time.Time `json:"f8,omitempty" layout:"time.TimeOnly"`
}

//json:json
type T4 struct {
	F0 time.Time `json:"f0,required" layout:"time.RFC3339Nano"`
	F1 time.Time `json:"f1,required" layout:"time.Kitchen"`
	F2 time.Time `json:"f2,required" layout:"time.Stamp"`
	F3 time.Time `json:"f3,required" layout:"time.StampMilli"`
	F4 time.Time `json:"f4,required" layout:"time.StampMicro"`
	F5 time.Time `json:"f5,required" layout:"time.StampNano"`
	F6 time.Time `json:"f6,required" layout:"time.DateTime"`
	F7 time.Time `json:"f7,required" layout:"time.DateOnly"`
	F8 time.Time `json:"f8,required" layout:"time.TimeOnly"`
}

