package d_tslicei

//json:json
type D TSliceI

//json:json
type TSliceI []int
