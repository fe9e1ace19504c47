package d_s_ti32

//json:json
type D []TI32

//json:json
type TI32 int32
