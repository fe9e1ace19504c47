package d_a3_ti32

//json:json
type D [3]TI32

//json:json
type TI32 int32
