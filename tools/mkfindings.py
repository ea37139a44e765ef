#!/usr/bin/env python3
"""Writes known-findings.json: findings recorded, defects repaired."""
import json, os
F=[]   # {"property","class","contains","what"}
X=[
("P20","1586e3e","multiply blending clamped the reference frame's samples instead of the new frame's"),
("P05","533dae0","blending with a reference slot smaller than the image read outside it (panic)"),
("P06","e2d1a06","a short skip by the source past the end of the input was counted as skipped bytes, so a truncated file or frame was reported complete"),
("P07","a1fb1f5","bytes read before a source error or short read were dropped, so a retry decoded shifted data"),
("P10","3e80247","at a codestream box boundary the decoder asked for more input although the data at hand sufficed"),
("P10","553bbe6","a short read inside an out-of-order jxlp box lost data"),
("P08","d2c723e","seek targets and codestream positions were wrong with empty or out-of-order jxlp boxes"),
("P03","fa77415","a failed preview render dropped reference and LF frame buffers, so the final decode failed or differed"),
("P11","24d98e9","preview frames were rendered with the size of the main image"),
("P05","790310b","panics when no color output is requested"),
("P03","bbaf5a0","panic when previewing upsampled squeeze tiles before their neighbours are decoded"),
("P02","e41c318","arithmetic overflow when a group at the image edge is smaller than the filter border"),
("P17","2ab9e8c","changing the pixel format while a frame was being decoded applied half of it to that frame (panic or wrong pixels)"),
("P08","d429ca8","seek targets of frames after hidden frames left out frames that had to be decoded first"),
("P05","81dd59b","an error met while reading ahead was reported before the data at hand was used, so which frames were seen depended on the delivery, and a later call panicked or went on"),
("P07","777729e","skipped bytes were miscounted when the source failed during a skip"),
("P09","e6374f2","scan-only passes decoded hidden frames, failing or needing pixel data"),
("P14","087e7e2","after a failed flush or decode step, repeating the call could panic or report the damaged frame as complete"),
("P18","9ff2f43","animated PNG files written by the tool were not valid (control chunks for frames that were missing or out of order)"),
("P18","1a68a0e","errors of the last, buffered writes of an output file were dropped, so a truncated file was reported as saved"),
("P04","32a034c","a preview of a SkipProgressive frame reported that nothing new was drawn although it was"),
("P08","a035e60","the noise of frames shown after a seek differed from the noise of the same frames in sequential playback"),
("P02","55c0884","two threads finishing neighbouring groups at the image edge at the same time rendered parts that were not ready (panic, or drawn twice)"),
("P05","870b54c","files with 8x upsampled extra channels and edge-preserving filters panicked: rows were allocated narrower than the rendered area"),
("P02","8531790","pixels of extra channels subsampled differently from the colour, and of columns near a narrow last group, depended on the order in which groups were decoded"),
("P11","6b79a92","previewing an LF frame into a buffer of the wrong size panicked, and a second panic while unwinding aborted the process"),
("P05","20410a3","previewing squeezed channels whose tiles are one sample wide read tiles outside the neighbourhood (panic)"),
("P01","c45c814","a file that squeezes a channel until groups hold no samples of it panicked"),
("P17","8f01046","changing between integer and float samples changed the output profile of later frames while frames they refer to stayed in the old one"),
("P05","36fa7c3","a frame of 2^32 pixels or more that has splines panicked (or was refused for having too many)"),
("P05","e498ec0","a short file with a frame of more than 2^32 sections was taken to need few of them, and the process was aborted allocating terabytes for its groups"),
("P13","af78a1f","a task that got the VarDCT buffers of one whose allocation of them had failed half-way panicked"),
("P13","fd73da8","a task that got the render buffers of one whose allocation of them had failed half-way panicked"),
]
out={"findings":F,"fixed":[f"fixed: property={p} {c} {w}" for p,c,w in X]}
json.dump(out,open(os.path.join(os.path.dirname(__file__),"..","known-findings.json"),"w"),indent=1)
