# Writes the "fixed:" part of known_findings.txt from the fix commits in /repo.
import subprocess
M={ # subject prefix -> (property, what failed)
"keep number to rational":("P05","large, tiny and negative numbers overflowed or lost precision when converted to rationals"),
"report raw tag data of a length":("P06","raw bytes whose length does not fit the format panicked or were cut in from_u16_with_data"),
"count only tags":("P07","remove_tag counted tags that were not there"),
"encode directory entries in order":("P02","entries out of order, stale StripOffsets/pointer entries, errors swallowed while encoding"),
"encode the number of components":("P02","component count of the catalogue instead of that of the value"),
"encode metadata without any tags":("P02","empty metadata was encoded as a header with a dangling directory offset"),
"report tag values that cannot":("P22","values that cannot be converted panicked while decoding"),
"decode malformed directories":("P22","cyclic directories, offsets outside the data and claimed counts caused panics, endless loops, huge allocations"),
"decode a sub directory at the end":("P03","a sub-directory that ends the data without a link was rejected"),
"keep the tags of a decoded directory":("P07","tags of a decoded directory were not in ascending order"),
"read WebP Exif chunks":("P09","WebP EXIF chunks with leading Exif identifier were not read"),
"report metadata that does not fit in a JPG":("P08","metadata larger than a JPEG segment wrote a wrong length and reported success"),
"cut off the rest of a JPG":("P19","old bytes remained behind the new end of a JPEG file"),
"report JPG segments with an impossible":("P23","segment length below 2 panicked while clearing"),
"do not look for the Exif identifier":("P10","short APP1 segments were compared beyond their end"),
"skip JPG APP1 segments":("P09","an XMP segment before the Exif segment made reading fail"),
"handle fill bytes":("P10","fill bytes and stand-alone markers in JPEG streams"),
"remove exif XMP elements":("P17","nested elements inside removed XMP elements were left"),
"report malformed XMP":("P17","malformed XMP packets were cut short"),
"keep XMP attributes":("P17","XMP attributes with apostrophes or quotes inside were mangled"),
"skip only newlines":("P17","text after a removed XMP element was lost"),
"leave PNG chunks alone":("P11","XMP packets without exif parts were rewritten"),
"write the compression method":("P11","rebuilt zTXt XMP chunks lacked the compression method byte"),
"read PNG text chunks that are too short":("P22","short PNG text chunks panicked"),
"report mangled PNG raw":("P22","mangled raw profiles panicked"),
"do not allocate memory for the claimed length of a PNG":("P22","claimed PNG chunk lengths were allocated"),
"report metadata that does not fit in a PNG":("P08","profiles with more than eight digits of length"),
"restore the buffer":("P21","failed operations left half-changed buffers"),
"handle WebP chunks with a huge":("P22","claimed WebP chunk lengths were allocated or overflowed"),
"remove the right bytes when clearing a WebP":("P12","clearing a WebP buffer removed bytes of other chunks"),
"report WebP files with an impossible":("P23","assertions on damaged WebP files panicked"),
"clear WebP Exif chunks even":("P16","EXIF chunks stayed in WebP files whose Exif flag is not set"),
"convert simple lossy":("P12","simple lossy WebP buffers were not converted correctly"),
"read the dimensions of lossless":("P12","wrong canvas size for lossless WebP images"),
"keep the alpha flag":("P12","alpha flag lost when converting lossless WebP images"),
"let WebP files be read":("P19","WebP file operations differed from those in memory"),
"replace the entire content when writing TIFF":("P14","old content remained behind the new end of a TIFF"),
"keep all tags required for decoding TIFF":("P14","clearing a TIFF removed tags needed to decode the pixels"),
"handle all forms of box lengths":("P13","64-bit and open-ended box sizes in JPEG XL files"),
"read and write headers of HEIF boxes":("P15","HEIF boxes with 64-bit sizes"),
"keep all information regarding locations":("P15","base offsets, extents, construction methods, index fields and further items were lost or shifted wrongly"),
"recognise further brands":("P24","files of valid HEIF/AVIF brands were not recognised"),
"read references between HEIF items":("P15","reference types named like a full box were read with wrong layout"),
"detect the file type with readers":("P24","auto_detect failed with readers that return less data per call"),
"report invalid value sizes":("P23","invalid iloc value sizes panicked"),
"list each Exif item":("P28","an Exif item listed twice in a HEIF file grew with each clear and lost what was written"),
"report iref boxes of unknown":("P28","a HEIF file with an empty iref box of unknown version could not be read after a successful write"),
"reset the data reference":("P28","an Exif item without extents but with a data reference could not be read after a successful write"),
"clear JPG segments that follow":("P28","an Exif segment appeared behind the fill bytes of a cleared one"),
"report PNG files without":("P28","writing to a PNG whose first chunk is IEND reported success, the data was behind the end"),
"remove EXIF chunks of WebP files in the simple":("P28","EXIF chunks of WebP files in the simple format were kept and read instead of what was written"),
"compare WebP chunk names":("P28","a chunk name with zero bytes made Exif data behind it unreadable although it was written"),
"report Brotli data":("P22","63 bytes of JPEG XL with a compressed Exif box claiming a large Brotli window allocated 1 GiB"),
}
NO_DEFECT={"2996bd3","bbd74db"} | set(subprocess.run(["git","-C","/repo","log","--format=%h","--grep=^Takes back"],capture_output=True,text=True).stdout.split()) # changes that were taken back
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out=[];used=set()
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: ") or h in NO_DEFECT: continue
    k=[k for k in M if s[5:].startswith(k)]
    if not k: raise SystemExit("no entry for "+l)
    used.add(k[0]); out.append(f"fixed: property={M[k[0]][0]} {h} {M[k[0]][1]}")
f="/verif/known_findings.txt"
head=[l for l in open(f).read().splitlines() if not l.startswith("fixed: ")]
open(f,"w").write("\n".join(head+out)+"\n")
print(len(out),set(M)-used)
