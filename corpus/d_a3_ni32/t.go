package d_a3_ni32

//json:json
type D [3]NI32

type NI32 int32
