package times

import "time"

//json:json
type T0 struct {
	F0 time.Time `json:"f0" layout:"time.Layout"`
	F1 time.Time `json:"f1" layout:"time.ANSIC"`
	F2 time.Time `json:"f2" layout:"time.UnixDate"`
	F3 time.Time `json:"f3" layout:"time.RubyDate"`
	F4 time.Time `json:"f4" layout:"time.RFC822"`
	F5 time.Time `json:"f5" layout:"time.RFC822Z"`
	F6 time.Time `json:"f6" layout:"time.RFC850"`
	F7 time.Time `json:"f7" layout:"time.RFC1123"`
	F8 time.Time `json:"f8" layout:"time.RFC1123Z"`
	F9 time.Time `json:"f9" layout:"time.RFC3339"`
}

//json:json
type T1 struct {
	F0 *time.Time `json:"f0" layout:"time.Layout"`
	F1 *time.Time `json:"f1" layout:"time.ANSIC"`
	F2 *time.Time `json:"f2" layout:"time.UnixDate"`
	F3 *time.Time `json:"f3" layout:"time.RubyDate"`
	F4 *time.Time `json:"f4" layout:"time.RFC822"`
	F5 *time.Time `json:"f5" layout:"time.RFC822Z"`
	F6 *time.Time `json:"f6" layout:"time.RFC850"`
	F7 *time.Time `json:"f7" layout:"time.RFC1123"`
	F8 *time.Time `json:"f8" layout:"time.RFC1123Z"`
	F9 *time.Time `json:"f9" layout:"time.RFC3339"`
}

//json:json
type T2 struct {
	F0 time.Time `json:"f0,omitempty" layout:"time.Layout"`
	F1 time.Time `json:"f1,omitempty" layout:"time.ANSIC"`
	F2 time.Time `json:"f2,omitempty" layout:"time.UnixDate"`
	F3 time.Time `json:"f3,omitempty" layout:"time.RubyDate"`
	F4 time.Time `json:"f4,omitempty" layout:"time.RFC822"`
	F5 time.Time `json:"f5,omitempty" layout:"time.RFC822Z"`
	F6 time.Time `json:"f6,omitempty" layout:"time.RFC850"`
	F7 time.Time `json:"f7,omitempty" layout:"time.RFC1123"`
	F8 time.Time `json:"f8,omitempty" layout:"time.RFC1123Z"`
	F9 time.Time `json:"f9,omitempty" layout:"time.RFC3339"`
}

//json:json
type T3 struct {
	F0 *time.Time `json:"f0,omitempty" layout:"time.Layout"`
	F1 *time.Time `json:"f1,omitempty" layout:"time.ANSIC"`
	F2 *time.Time `json:"f2,omitempty" layout:"time.UnixDate"`
	F3 *time.Time `json:"f3,omitempty" layout:"time.RubyDate"`
	F4 *time.Time `json:"f4,omitempty" layout:"time.RFC822"`
	F5 *time.Time `json:"f5,omitempty" layout:"time.RFC822Z"`
	F6 *time.Time `json:"f6,omitempty" layout:"time.RFC850"`
	F7 *time.Time `json:"f7,omitempty" layout:"time.RFC1123"`
	F8 *time.Time `json:"f8,omitempty" layout:"time.RFC1123Z"`
	F9 *time.Time `json:"f9,omitempty" layout:"time.RFC3339"`
}

//json:json
type T4 struct {
	F0 time.Time `json:"f0,required" layout:"time.Layout"`
	F1 time.Time `json:"f1,required" layout:"time.ANSIC"`
	F2 time.Time `json:"f2,required" layout:"time.UnixDate"`
	F3 time.Time `json:"f3,required" layout:"time.RubyDate"`
	F4 time.Time `json:"f4,required" layout:"time.RFC822"`
	F5 time.Time `json:"f5,required" layout:"time.RFC822Z"`
	F6 time.Time `json:"f6,required" layout:"time.RFC850"`
	F7 time.Time `json:"f7,required" layout:"time.RFC1123"`
	F8 time.Time `json:"f8,required" layout:"time.RFC1123Z"`
	F9 time.Time `json:"f9,required" layout:"time.RFC3339"`
}

