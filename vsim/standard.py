"""The node types of VRML97, as ISO/IEC 14772-1:1997 declares them (chapter 6)

This is what the standard says, not what the code under test has.
"""

TABLE = """
Anchor: in MFNode addChildren; in MFNode removeChildren; exposed MFNode children; exposed SFString description; exposed MFString parameter; exposed MFString url; field SFVec3f bboxCenter 0 0 0; field SFVec3f bboxSize -1 -1 -1
Appearance: exposed SFNode material; exposed SFNode texture; exposed SFNode textureTransform
AudioClip: exposed SFString description; exposed SFBool loop FALSE; exposed SFFloat pitch 1.0; exposed SFTime startTime 0; exposed SFTime stopTime 0; exposed MFString url; out SFTime duration_changed; out SFBool isActive
Background: in SFBool set_bind; exposed MFFloat groundAngle; exposed MFColor groundColor; exposed MFString backUrl; exposed MFString bottomUrl; exposed MFString frontUrl; exposed MFString leftUrl; exposed MFString rightUrl; exposed MFString topUrl; exposed MFFloat skyAngle; exposed MFColor skyColor 0 0 0; out SFBool isBound
Billboard: in MFNode addChildren; in MFNode removeChildren; exposed SFVec3f axisOfRotation 0 1 0; exposed MFNode children; field SFVec3f bboxCenter 0 0 0; field SFVec3f bboxSize -1 -1 -1
Box: field SFVec3f size 2 2 2
Collision: in MFNode addChildren; in MFNode removeChildren; exposed MFNode children; exposed SFBool collide TRUE; field SFVec3f bboxCenter 0 0 0; field SFVec3f bboxSize -1 -1 -1; field SFNode proxy; out SFTime collideTime
Color: exposed MFColor color
ColorInterpolator: in SFFloat set_fraction; exposed MFFloat key; exposed MFColor keyValue; out SFColor value_changed
Cone: field SFFloat bottomRadius 1; field SFFloat height 2; field SFBool side TRUE; field SFBool bottom TRUE
Coordinate: exposed MFVec3f point
CoordinateInterpolator: in SFFloat set_fraction; exposed MFFloat key; exposed MFVec3f keyValue; out MFVec3f value_changed
Cylinder: field SFBool bottom TRUE; field SFFloat height 2; field SFFloat radius 1; field SFBool side TRUE; field SFBool top TRUE
CylinderSensor: exposed SFBool autoOffset TRUE; exposed SFFloat diskAngle 0.262; exposed SFBool enabled TRUE; exposed SFFloat maxAngle -1; exposed SFFloat minAngle 0; exposed SFFloat offset 0; out SFBool isActive; out SFRotation rotation_changed; out SFVec3f trackPoint_changed
DirectionalLight: exposed SFFloat ambientIntensity 0; exposed SFColor color 1 1 1; exposed SFVec3f direction 0 0 -1; exposed SFFloat intensity 1; exposed SFBool on TRUE
ElevationGrid: in MFFloat set_height; exposed SFNode color; exposed SFNode normal; exposed SFNode texCoord; field MFFloat height; field SFBool ccw TRUE; field SFBool colorPerVertex TRUE; field SFFloat creaseAngle 0; field SFBool normalPerVertex TRUE; field SFBool solid TRUE; field SFInt32 xDimension 0; field SFFloat xSpacing 1.0; field SFInt32 zDimension 0; field SFFloat zSpacing 1.0
Extrusion: in MFVec2f set_crossSection; in MFRotation set_orientation; in MFVec2f set_scale; in MFVec3f set_spine; field SFBool beginCap TRUE; field SFBool ccw TRUE; field SFBool convex TRUE; field SFFloat creaseAngle 0; field MFVec2f crossSection 1 1 1 -1 -1 -1 -1 1 1 1; field SFBool endCap TRUE; field MFRotation orientation 0 0 1 0; field MFVec2f scale 1 1; field SFBool solid TRUE; field MFVec3f spine 0 0 0 0 1 0
Fog: exposed SFColor color 1 1 1; exposed SFString fogType LINEAR; exposed SFFloat visibilityRange 0; in SFBool set_bind; out SFBool isBound
FontStyle: field MFString family SERIF; field SFBool horizontal TRUE; field MFString justify BEGIN; field SFString language; field SFBool leftToRight TRUE; field SFFloat size 1.0; field SFFloat spacing 1.0; field SFString style PLAIN; field SFBool topToBottom TRUE
Group: in MFNode addChildren; in MFNode removeChildren; exposed MFNode children; field SFVec3f bboxCenter 0 0 0; field SFVec3f bboxSize -1 -1 -1
ImageTexture: exposed MFString url; field SFBool repeatS TRUE; field SFBool repeatT TRUE
IndexedFaceSet: in MFInt32 set_colorIndex; in MFInt32 set_coordIndex; in MFInt32 set_normalIndex; in MFInt32 set_texCoordIndex; exposed SFNode color; exposed SFNode coord; exposed SFNode normal; exposed SFNode texCoord; field SFBool ccw TRUE; field MFInt32 colorIndex; field SFBool colorPerVertex TRUE; field SFBool convex TRUE; field MFInt32 coordIndex; field SFFloat creaseAngle 0; field MFInt32 normalIndex; field SFBool normalPerVertex TRUE; field SFBool solid TRUE; field MFInt32 texCoordIndex
IndexedLineSet: in MFInt32 set_colorIndex; in MFInt32 set_coordIndex; exposed SFNode color; exposed SFNode coord; field MFInt32 colorIndex; field SFBool colorPerVertex TRUE; field MFInt32 coordIndex
Inline: exposed MFString url; field SFVec3f bboxCenter 0 0 0; field SFVec3f bboxSize -1 -1 -1
LOD: exposed MFNode level; field SFVec3f center 0 0 0; field MFFloat range
Material: exposed SFFloat ambientIntensity 0.2; exposed SFColor diffuseColor 0.8 0.8 0.8; exposed SFColor emissiveColor 0 0 0; exposed SFFloat shininess 0.2; exposed SFColor specularColor 0 0 0; exposed SFFloat transparency 0
MovieTexture: exposed SFBool loop FALSE; exposed SFFloat speed 1.0; exposed SFTime startTime 0; exposed SFTime stopTime 0; exposed MFString url; field SFBool repeatS TRUE; field SFBool repeatT TRUE; out SFTime duration_changed; out SFBool isActive
NavigationInfo: in SFBool set_bind; exposed MFFloat avatarSize 0.25 1.6 0.75; exposed SFBool headlight TRUE; exposed SFFloat speed 1.0; exposed MFString type WALK ANY; exposed SFFloat visibilityLimit 0.0; out SFBool isBound
Normal: exposed MFVec3f vector
NormalInterpolator: in SFFloat set_fraction; exposed MFFloat key; exposed MFVec3f keyValue; out MFVec3f value_changed
OrientationInterpolator: in SFFloat set_fraction; exposed MFFloat key; exposed MFRotation keyValue; out SFRotation value_changed
PixelTexture: exposed SFImage image 0 0 0; field SFBool repeatS TRUE; field SFBool repeatT TRUE
PlaneSensor: exposed SFBool autoOffset TRUE; exposed SFBool enabled TRUE; exposed SFVec2f maxPosition -1 -1; exposed SFVec2f minPosition 0 0; exposed SFVec3f offset 0 0 0; out SFBool isActive; out SFVec3f trackPoint_changed; out SFVec3f translation_changed
PointLight: exposed SFFloat ambientIntensity 0; exposed SFVec3f attenuation 1 0 0; exposed SFColor color 1 1 1; exposed SFFloat intensity 1; exposed SFVec3f location 0 0 0; exposed SFBool on TRUE; exposed SFFloat radius 100
PointSet: exposed SFNode color; exposed SFNode coord
PositionInterpolator: in SFFloat set_fraction; exposed MFFloat key; exposed MFVec3f keyValue; out SFVec3f value_changed
ProximitySensor: exposed SFVec3f center 0 0 0; exposed SFVec3f size 0 0 0; exposed SFBool enabled TRUE; out SFBool isActive; out SFVec3f position_changed; out SFRotation orientation_changed; out SFTime enterTime; out SFTime exitTime
ScalarInterpolator: in SFFloat set_fraction; exposed MFFloat key; exposed MFFloat keyValue; out SFFloat value_changed
Shape: exposed SFNode appearance; exposed SFNode geometry
Sound: exposed SFVec3f direction 0 0 1; exposed SFFloat intensity 1; exposed SFVec3f location 0 0 0; exposed SFFloat maxBack 10; exposed SFFloat maxFront 10; exposed SFFloat minBack 1; exposed SFFloat minFront 1; exposed SFFloat priority 0; exposed SFNode source; field SFBool spatialize TRUE
Sphere: field SFFloat radius 1
SphereSensor: exposed SFBool autoOffset TRUE; exposed SFBool enabled TRUE; exposed SFRotation offset 0 1 0 0; out SFBool isActive; out SFRotation rotation_changed; out SFVec3f trackPoint_changed
SpotLight: exposed SFFloat ambientIntensity 0; exposed SFVec3f attenuation 1 0 0; exposed SFFloat beamWidth 1.570796; exposed SFColor color 1 1 1; exposed SFFloat cutOffAngle 0.785398; exposed SFVec3f direction 0 0 -1; exposed SFFloat intensity 1; exposed SFVec3f location 0 0 0; exposed SFBool on TRUE; exposed SFFloat radius 100
Switch: exposed MFNode choice; exposed SFInt32 whichChoice -1
Text: exposed MFString string; exposed SFNode fontStyle; exposed MFFloat length; exposed SFFloat maxExtent 0.0
TextureCoordinate: exposed MFVec2f point
TextureTransform: exposed SFVec2f center 0 0; exposed SFFloat rotation 0; exposed SFVec2f scale 1 1; exposed SFVec2f translation 0 0
TimeSensor: exposed SFTime cycleInterval 1; exposed SFBool enabled TRUE; exposed SFBool loop FALSE; exposed SFTime startTime 0; exposed SFTime stopTime 0; out SFTime cycleTime; out SFFloat fraction_changed; out SFBool isActive; out SFTime time
TouchSensor: exposed SFBool enabled TRUE; out SFVec3f hitNormal_changed; out SFVec3f hitPoint_changed; out SFVec2f hitTexCoord_changed; out SFBool isActive; out SFBool isOver; out SFTime touchTime
Transform: in MFNode addChildren; in MFNode removeChildren; exposed SFVec3f center 0 0 0; exposed MFNode children; exposed SFRotation rotation 0 0 1 0; exposed SFVec3f scale 1 1 1; exposed SFRotation scaleOrientation 0 0 1 0; exposed SFVec3f translation 0 0 0; field SFVec3f bboxCenter 0 0 0; field SFVec3f bboxSize -1 -1 -1
Viewpoint: in SFBool set_bind; exposed SFFloat fieldOfView 0.785398; exposed SFBool jump TRUE; exposed SFRotation orientation 0 0 1 0; exposed SFVec3f position 0 0 10; field SFString description; out SFTime bindTime; out SFBool isBound
VisibilitySensor: exposed SFVec3f center 0 0 0; exposed SFBool enabled TRUE; exposed SFVec3f size 0 0 0; out SFTime enterTime; out SFTime exitTime; out SFBool isActive
WorldInfo: field MFString info; field SFString title
"""

# node type -> field -> (type, whether exposed, the tokens of its default)
FIELDS = {}
# node type -> event -> (type, whether it goes out)
EVENTS = {}
for _line in TABLE.strip().splitlines():
    _name, _declarations = _line.split(': ')
    FIELDS[_name], EVENTS[_name] = {}, {}
    for _declaration in _declarations.split('; '):
        _how, _type, _what = _declaration.split(' ')[:3]
        if _how in ('in', 'out'):
            EVENTS[_name][_what] = (_type, _how == 'out')
        else:
            FIELDS[_name][_what] = (_type, _how == 'exposed', _declaration.split(' ')[3:])
# all have these, whose use the standard leaves to the browser
EXTRA = {'PointSet': {'attenuation', 'maxSize', 'minSize', 'size'}}
