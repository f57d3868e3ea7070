#!/usr/bin/env python3
# Writes /verif/known_findings.json.
import json,os
F=[("C12","embedded-struct","fields of embedded structs are not promoted as in encoding/json, the embedded struct is decoded as a field named like its type (pinned by the internal tests of the project): struct{EmbExp; X int} <- {\"C\":\"c\",\"D\":[1],\"X\":2}"),
("C01","ill-formed-utf8","bytes that are not UTF-8 are kept in strings instead of replaced by U+FFFD: string <- \"a\\xffb\""),
("C04","pointer-in-any","an any holding a non-nil pointer is replaced instead of decoded into the pointee: any(&struct{A,B int}{}) <- {\"A\":1}"),
("C02","string-option-number","the string option of a Number field is ignored, unquoted numbers are accepted: struct{N Number `json:\",string\"`} <- {\"N\":1.5}"),
("C16","string-option-unmarshal","the string option of a field of scalar kind with an unmarshaler is ignored, the method gets the quoted text: struct{U UJInt `json:\",string\"`} <- {\"U\":\"5\"}")]
X=[("C09","759f293","int8, int16 and int32 literals wrapping around twice were accepted, e.g. int8 <- 300"),
("C17","a66fcd7","quoted numbers and integer map keys with trailing or missing content were accepted, e.g. {\"1x\":0} into map[int]int"),
("C17","cfbf601","escapes in fields with the string option were not undone, a quoted null was rejected"),
("C25","db320b8","after the end of a pointed-to value decoding continued in the wrong frame, e.g. []*[]int <- [[1],[2]]"),
("C25","c1177d2","the pointee of a non-nil pointer was replaced instead of merged into"),
("C24","456d356","elements a slice held before were lost when it had to grow"),
("C25","a83dcae","null zeroed booleans, numbers and strings"),
("C13","b6f9341","the end of an unknown field's object was mistaken for the end of the struct"),
("C13","ca863c4","members of objects decoded into struct{} were taken for members of the outer object"),
("C15","ca255a7","frames were not restored after recursive values, so later siblings were written to wrong places"),
("C16","11be2a4","unmarshalers of slice elements, map keys and map values were not called, unsupported map keys were accepted"),
("C14","6cb4eea","existing maps of strings were replaced, map values were merged with those of the previous member"),
("C24","cdd47a1","array elements without values in the document kept their contents"),
("C10","bec323b","the sign of -0 was lost in floats"),
("C11","bf93426","escaped surrogate pairs were decoded to replacement characters"),
("C12","37039b4","unexported fields were written, tags with other options than string or invalid names were misread"),
("C12","f19297f","case-insensitive matches with another byte length were not found, e.g. U+212A for k"),
("C17","6779f56","the string option was ignored on pointers"),
("C22","9c27aa0","the type was determined from the dynamic value of an any instead of T"),
("C24","e57b1cb","elements of []struct{} were not checked, null did not make it nil"),
("C23","1d1d2ca","interfaces with methods crashed decoding, type S []S overflowed the stack"),
("C16","851d840","pointers to types with unmarshalers were not allocated or not set to nil by null"),
("C02","b1b556b","base64 strings were rejected for []byte"),
("C08","7ba227b","the index and error of an out-of-range number inside any were lost"),
("C18","7d5da59","growing a slice of elements without pointers during garbage collection crashed (unaligned arguments)"),
("C02","34eeadc","base64 strings were rejected for slices of bytes with an unmarshaler"),
("C23","41dc6a1","types containing themselves only in ignored fields were rejected"),
("C26","27ded44","values followed by other data were decoded, and unmarshalers called, before the error was reported"),
("C12","6c6dddd","of fields with the same name the wrong one was chosen"),
("C03","98c4209","a valid document of some million nested arrays or objects for any ended the process with a stack overflow"),
("C10","817f427","encoding/json.Number was decoded like string: number literals were rejected, strings that are no numbers accepted"),
]
X+=json.load(open('/verif/tools/fixed_more.json')) if os.path.exists('/verif/tools/fixed_more.json') else []
json.dump({"findings":[dict(property=p,id=i,what=w) for p,i,w in F],
 "fixed":["fixed: property=%s %s %s"%x for x in X]},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
open('/verif/known_findings.json','a').write('\n')
