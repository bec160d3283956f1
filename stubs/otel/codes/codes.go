package codes

type Code uint32

const (
	Unset Code = 0
	Error Code = 1
	Ok    Code = 2
)

func (c Code) String() string {
	switch c {
	case Unset:
		return "Unset"
	case Error:
		return "Error"
	case Ok:
		return "Ok"
	}
	return ""
}
