package d_s_ni32

//json:json
type D []NI32

type NI32 int32
