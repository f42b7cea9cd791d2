package class

const (
	Null         = "soql:NullValue"
	Bool         = "soql:BoolValue"
	String       = "soql:StringValue"
	Blob         = "soql:BlobValue"
	Int          = "soql:IntValue"
	Float        = "soql:FloatValue"
	Date         = "soql:DateValue"
	DateTime     = "soql:DateTimeValue"
	Time         = "soql:TimeValue"
	SymbolString = "soql:SymbolStringValue"
	List         = "soql:ListValue"

	SymbolName              = "soql:SymbolName"
	ComplexSymbol           = "soql:ComplexSymbol"
	ParameterizedValue      = "soql:ParameterizedValue"
	DateTimeLiteralName     = "soql:DateTimeLiteralName"
	SelectFieldFunctionCall = "soql:SelectFieldFunctionCall"
	SubQuery                = "soql:SubQuery"
)
