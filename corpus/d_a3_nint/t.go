package d_a3_nint

//json:json
type D [3]NInt

type NInt int
