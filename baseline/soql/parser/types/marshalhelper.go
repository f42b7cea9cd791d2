package types

import (
	"encoding/json"
	"errors"
	"time"
)

// checkLiteralNull makes sure that the null value appears only as the value of the null literal.
func checkLiteralNull(b json.RawMessage, typ SoqlFieldInfoType) error {
	isNull := len(b) == 0 || string(b) == "null"

	switch typ {
	case SoqlFieldInfo_Literal_Null:
		if !isNull {
			return errors.New("Unexpected value of " + typ.String() + ": " + string(b))
		}
	case SoqlFieldInfo_Literal_Int,
		SoqlFieldInfo_Literal_Float,
		SoqlFieldInfo_Literal_Bool,
		SoqlFieldInfo_Literal_String,
		SoqlFieldInfo_Literal_Blob,
		SoqlFieldInfo_Literal_Date,
		SoqlFieldInfo_Literal_DateTime,
		SoqlFieldInfo_Literal_Time,
		SoqlFieldInfo_Literal_DateTimeRange,
		SoqlFieldInfo_Literal_List,
		SoqlFieldInfo_DateTimeLiteralName:
		if isNull {
			return errors.New("The value is missing: " + typ.String())
		}
	}
	return nil
}

func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
	if err := checkLiteralNull(b, typ); err != nil {
		return nil, err
	}

	switch typ {
	case SoqlFieldInfo_Literal_Null:
		return nil, nil
	case SoqlFieldInfo_Literal_Int:
		{
			var v int64
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	case SoqlFieldInfo_Literal_Float:
		{
			var v float64
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	case SoqlFieldInfo_Literal_Bool:
		{
			var v bool
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	case SoqlFieldInfo_Literal_String:
		{
			var v string
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	case SoqlFieldInfo_Literal_Blob:
		{
			var v []byte
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	case SoqlFieldInfo_Literal_Date,
		SoqlFieldInfo_Literal_DateTime,
		SoqlFieldInfo_Literal_Time:
		{
			var v time.Time
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	case SoqlFieldInfo_Literal_DateTimeRange:
		{
			var v SoqlTimeRange
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	case SoqlFieldInfo_Literal_List:
		{
			var v []SoqlListItem
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	case SoqlFieldInfo_DateTimeLiteralName:
		{
			var v SoqlDateTimeLiteralName
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	default:
		return nil, nil
	}
}

func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
	switch typ {
	case SoqlFieldInfo_ParameterizedValue:
		{
			if string(b) == "null" {
				return nil, errors.New("The value is missing: " + typ.String())
			}
			var v string
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
		}
	default:
		return unmarshalSoqlFieldInfoValue(b, typ)
	}
}
