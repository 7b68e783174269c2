// Code generated by shimgen from package time; DO NOT EDIT.

package vtime

import realtime "time"

const ANSIC = realtime.ANSIC
const April = realtime.April
const August = realtime.August

var Date = realtime.Date

const DateOnly = realtime.DateOnly
const DateTime = realtime.DateTime
const December = realtime.December

type Duration = realtime.Duration

const February = realtime.February

var FixedZone = realtime.FixedZone

const Friday = realtime.Friday
const Hour = realtime.Hour
const January = realtime.January
const July = realtime.July
const June = realtime.June
const Kitchen = realtime.Kitchen
const Layout = realtime.Layout

var LoadLocation = realtime.LoadLocation
var LoadLocationFromTZData = realtime.LoadLocationFromTZData
var Local = realtime.Local

type Location = realtime.Location

const March = realtime.March
const May = realtime.May
const Microsecond = realtime.Microsecond
const Millisecond = realtime.Millisecond
const Minute = realtime.Minute
const Monday = realtime.Monday

type Month = realtime.Month

const Nanosecond = realtime.Nanosecond
const November = realtime.November
const October = realtime.October

var Parse = realtime.Parse
var ParseDuration = realtime.ParseDuration

type ParseError = realtime.ParseError

var ParseInLocation = realtime.ParseInLocation

const RFC1123 = realtime.RFC1123
const RFC1123Z = realtime.RFC1123Z
const RFC3339 = realtime.RFC3339
const RFC3339Nano = realtime.RFC3339Nano
const RFC822 = realtime.RFC822
const RFC822Z = realtime.RFC822Z
const RFC850 = realtime.RFC850
const RubyDate = realtime.RubyDate
const Saturday = realtime.Saturday
const Second = realtime.Second
const September = realtime.September
const Stamp = realtime.Stamp
const StampMicro = realtime.StampMicro
const StampMilli = realtime.StampMilli
const StampNano = realtime.StampNano
const Sunday = realtime.Sunday
const Thursday = realtime.Thursday

type Time = realtime.Time

const TimeOnly = realtime.TimeOnly
const Tuesday = realtime.Tuesday

var UTC = realtime.UTC
var Unix = realtime.Unix

const UnixDate = realtime.UnixDate

var UnixMicro = realtime.UnixMicro
var UnixMilli = realtime.UnixMilli

const Wednesday = realtime.Wednesday

type Weekday = realtime.Weekday
