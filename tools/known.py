#!/usr/bin/env python3
"""Writes known_findings.json from the lists below."""
import json, os
K=[]
def k(p,sig,what): K.append(dict(property=p,sig=sig,what=what))
PX="finding entity_data_string@R2010:ProxyEntity."
k("C03",PX+"entity_data_string","ACAD_PROXY_ENTITY: the entity data (310 after 93) is read back as graphics data (310 after 92)")
k("C03",PX+"graphics_data_string","ACAD_PROXY_ENTITY: the entity data (310 after 93) is appended to the graphics data on reading")
for u in ["Dgn","Dwf","Pdf"]:
    k("C03","finding points@R2007:%sUnderlay.points"%u,u.upper()+"UNDERLAY: the y values of the boundary points are written with code 12 instead of 21, and the points are lost (spec/EntitiesSpec.xml)")
    k("C10","finding points@R2007:stray:%sUnderlay.12"%u,u.upper()+"UNDERLAY: the y values of the boundary points are written with code 12 instead of 21 (spec/EntitiesSpec.xml)")
ML="MLINE: vertices are written with codes 10-30 instead of 11-31, segment directions with 11-31 instead of 12-32, miter directions with 12-32 instead of 13-33, so each list is read as another (spec/EntitiesSpec.xml)"
for f,g in [("vertices","vertices"),("vertices","start_point"),("segment_directions","segment_directions"),("segment_directions","vertices"),("miter_directions","miter_directions"),("miter_directions","segment_directions")]:
    k("C03","finding %s@R2000:MLine.%s"%(f,g),ML)
k("C03","finding clipping_vertices@R2000:Wipeout.clipping_vertices","WIPEOUT: the y values of the clipping vertices are read from code 12 instead of 24, and the vertices are lost (spec/EntitiesSpec.xml)")
FO="FIELD up to R2007: the objects are written with code 330, which the reader takes for the owner, instead of 331 (spec/ObjectsSpec.xml)"
k("C04","finding:Field.__objects_handle",FO)
k("C04","finding:common.__owner_handle",FO)
k("C10","finding __objects_handle@R2007:Field.__objects_handle",FO)
for f,w in [("map_v_tile","the v tiling is never written"),("specular_gloss_factor","the gloss factor is never written, the colour factor is written twice")]:
    k("C04","finding:Material."+f,"MATERIAL: "+w+" (spec/ObjectsSpec.xml)")
    k("C10","finding %s@R2018:Material.%s"%(f,f),"MATERIAL: "+w+" (spec/ObjectsSpec.xml)")
k("C04","finding:VbaProject.data","VBA_PROJECT: the data is never written (spec/ObjectsSpec.xml)")
pos="fields that share a group code are told apart by position in the file, which the reader does not follow"
for f in ["MentalRayRenderSettings.class_version_1","MentalRayRenderSettings.filter_width","MentalRayRenderSettings.preset_name",
 "NavisWorksModelDefinition.is_model_loaded_on_drawing_open","RapidRenderSettings.render_preset_name","RenderEnvironment.is_fog_enabled",
 "RenderEnvironment.near_fog_density_percent","RenderGlobal.class_version"]:
    k("C04","finding:"+f, f.split('.')[0]+": "+pos)
k("C04","finding:SectionSettings.is_generation_option","SECTIONSETTINGS: the generation option of the object itself is never written")
k("C11","finding:ATTDEF,MTEXT","an MTEXT that follows an ATTDEF is always taken for the text of the ATTDEF, although other programs write stand-alone MTEXT there")
k("C12","markers:Field:none","FIELD: the object is written without its subclass marker AcDbField (spec/ObjectsSpec.xml gives none)")
k("C13","finding:TABLESTYLE","TABLESTYLE: a group code unknown to the reader inside a cell style ends the cell style, its remaining values are lost")
k("C13","finding:SECTIONSETTINGS","SECTIONSETTINGS: a group code unknown to the reader inside the settings of a section type ends them, the remaining values are lost or read as those of the object")
CL=": the parts get their handles when they are added to their parent, so adding a clone of the parent gives two items whose parts share handles"
for w in ["insert","polyline","block"]:
    k("C15","finding-clone:%s:part"%w,w+" added twice"+CL)
k("C15","finding-unstored:SectionSettings","SECTIONSETTINGS: the source objects of the object itself are never written (see C04)")
k("C15","finding-unstored:Field",FO)
F=[
("C23","bb52b6c","an error inside an entity or object ended reading silently and dropped the rest of the section"),
("C15","ae6b075","attributes, vertices, seqends and block entities got fresh handles on every load"),
("C07","8692d3c","every save/load cycle added another block record for each block"),
("C19","aa7b6c1","XDATA of inserts and polylines was written after their parts and moved to the SEQEND"),
("C03","16ede54","AcDbVertex marker written before R13"),
("C03","61d98d1","dimensions of files without subclass markers were dropped"),
("C03","6b0cf99","common values of entities that re-use codes 60/62/284/370... were read as the entity's own"),
("C04","2412d6b","material matrices and multiline style elements were lost on loading"),
("C04","ae24a22","the owner handle of objects with their own 330 values was lost"),
("C04","16ddd7a","reading a TABLESTYLE swallowed the start of the next object"),
("C04","f0b4f0c","the lights of a LIGHTLIST were lost"),
("C04","6e85813","the specular map file name of a material was lost"),
("C04","4c8c173","reading SECTIONSETTINGS looped for ever"),
("C04","b737cad","the matrices of a SPATIAL_FILTER were read in another order than written"),
("C04","3cae21c","the hard owner flag of dictionaries was never written"),
("C04","88fec27","duplicate record handling and XDATA of an XRECORD were lost"),
("C04","dfc362d","dates moved by a second, and out of range dates panicked"),
("C04","7999d8e","the time of a SUNSTUDY's dates was not written"),
("C04","18cb514","data tables lost columns and rows, or allocated what a file claims; the title flag of old table styles was lost"),
("C04","3b4cb3f","the hours of a SUNSTUDY were written with the wrong value type"),
("C05","a5b1a26","the owner of table records was never written"),
("C06","cb67262","$DIMATFIT was never read"),
("C09","5118112","backslashes, carets and characters beyond the basic plane were lost or corrupted in escaped text"),
("C09","c65cc89","a line of text that starts with the bytes of a byte order mark was decoded as another encoding"),
("C09","db65345","text of binary files was written as UTF-8 and read byte by byte"),
("C19","25a273c","binary XDATA (1004) was treated as text in binary files"),
("C08","2a72cf3","binary data longer than 255 bytes was written with a truncated length in binary files"),
("C11","aa94f20","files before R13 whose dimension styles name an arrow block did not load; the handle of dimension styles was written with the code of that block"),
("C03","fbf84ae","the lock flag of attributes without version was read as the version"),
]
exec(open(os.path.join(os.path.dirname(__file__),"fixed_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__),"fixed_more.py")) else None
out={"known":K,"fixed":["fixed: property=%s %s %s"%f for f in F]}
json.dump(out,open(os.path.join(os.path.dirname(__file__),"..","known_findings.json"),"w"),indent=1)
