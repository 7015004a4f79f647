module replay

go 1.21

require (
	github.com/rom1mouret/ml-essentials v0.0.0
	golang.org/x/text v0.3.5
	gonum.org/v1/gonum v0.8.2
)

require golang.org/x/exp v0.0.0-20191002040644-a1355ae1e2c3 // indirect

replace github.com/rom1mouret/ml-essentials => /repo
