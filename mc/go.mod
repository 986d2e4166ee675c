module verif/mc

go 1.24

require github.com/cloudprivacylabs/lpg/v2 v2.0.0

require github.com/emirpasic/gods v1.18.1 // indirect

replace github.com/cloudprivacylabs/lpg/v2 => /repo
