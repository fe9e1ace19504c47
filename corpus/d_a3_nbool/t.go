package d_a3_nbool

//json:json
type D [3]NBool

type NBool bool
