#!/usr/bin/env python3
"""One-off generator of analyzer/spec/messages.json, the frozen MAVLink wire
table the checks use as oracle.  It reads the message sources at the pinned
commit, recovers the wire names, and validates every definition against its
CRC extra (a checksum over message name, field types, names and array lengths,
computed by mavgen from the XML definition)."""
import re,glob,itertools,json,sys
REPO=sys.argv[1] if len(sys.argv)>1 else '/repo'
def x25(bs,crc=0xffff):
    for b in bs:
        t=b^(crc&0xff); t=(t^(t<<4))&0xff
        crc=((crc>>8)^(t<<8)^(t<<3)^(t>>4))&0xffff
    return crc
CT={'uint8':'uint8_t','int8':'int8_t','byte':'char','uint16':'uint16_t','int16':'int16_t','uint32':'uint32_t','int32':'int32_t','float32':'float','uint64':'uint64_t','int64':'int64_t','float64':'double'}
S={'uint8':1,'int8':1,'byte':1,'uint16':2,'int16':2,'uint32':4,'int32':4,'float32':4,'uint64':8,'int64':8,'float64':8,'bool':1}
def snake(n):
    s=re.sub(r'([a-z0-9])([A-Z])',r'\1_\2',n); s=re.sub(r'([A-Z]+)([A-Z][a-z])',r'\1_\2',s)
    return s.lower()
WORDS='omegaIx omegaIy omegaIz EAS2TAS Pax Pby Pcz AOA SSA img_idx cam_idx CompensationX CompensationY CompensationZ idx Vcc Vservo I2Cerr FF P I D ICAO_address MMSI COG TSLC width height middleware_sw_version time_to_minimum_delta altitude_minimum_delta horizontal_minimum_delta jpg_quality satellite_azimuth grid_spacing gridbit valid_points p1x p1y p1z p2x p2y p2z ssid ignore_flags uElev uThrot uThrot2 uAilL uAilR uRud hRef hRef_t PitchAngle PitchAngleRef qRef SpoilersEngaged AirspeedRef YawAngle YawAngleRef RollAngle RollAngleRef pRef rRef i32_1 i8_1 i8_2 f_1 f_2 f_3 f_4 f_5 f_6 f_7 f_8 LED_status SATCOM_status Servo_status Motor_rpm Windspeed WindDir WindZ Airspeed timestampModeChanged xW xR xLat xLon VarW VarR VarLat VarLon LoiterRadius LoiterDirection DistToSoarPoint vSinkExp z1_LocalUpdraftSpeed z2_DeltaRoll z1_exp z2_exp ThermalGSNorth ThermalGSEast TSE_dot DebugVar1 DebugVar2 ControlMode TempAmbient Humidity SerialNumber safetystatus operationstatus cellvoltage1 batterystatus airframe tot_vx time_week_ms hit minimum maximum vibration_x clipping_0 clipping_1 clipping_2 flow_comp_m_x flow_comp_m_y fixed rxerrors mControl bControl idSurface batVolt sensLoad ctrlLoad bitfieldPt fl_1 fl_2 fl_3 fl_4 fl_5 fl_6 diagFl1 diagFl2 diagFl3 diagSh1 diagSh2 diagSh3 clockStat visSat useSat GppGl sigUsedMask percentUsed hCommand uCommand rCommand receiverStatus posSolAge csFails timeStatus solStatus posType velType axBias ayBias azBias gxBias gyBias gzBias moveHome idOrder u_m psiDot_c ay_body totalDist dist2Go h_c fromWP toWP magVar gpsQuality msgsType posStatus magDir modeInd r2Type stallSpeed emitterType aircraftSize gpsOffsetLat gpsOffsetLon rfSelect utcTime gpsLat gpsLon gpsAlt baroAltMSL accuracyHor accuracyVert accuracyVel velVert velNS VelEW emergencyStatus gpsFix numSats squawk rfHealth accel_0 accel_1 accel_2 gyro_0 gyro_1 gyro_2 num_bands min1 numBands discharge_minimum_voltage charging_minimum_voltage resting_minimum_voltage sue_trap_source sue_rcon sue_aileron_navigation sue_rudder_navigation sue_YAWKP_AILERON sue_YAWKD_AILERON sue_ROLLKP sue_ROLLKD sue_PITCHGAIN sue_PITCHKD sue_RUDDER_ELEV_MIX sue_ROLL_ELEV_MIX sue_ELEVATOR_BOOST sue_YAWKP_RUDDER sue_YAWKD_RUDDER sue_ROLLKP_RUDDER sue_ROLLKD_RUDDER sue_RUDDER_BOOST sue_RTL_PITCH_DOWN sue_HEIGHT_TARGET_MAX sue_HEIGHT_TARGET_MIN sue_ALT_HOLD_THROTTLE_MIN sue_ALT_HOLD_THROTTLE_MAX sue_ALT_HOLD_PITCH_MIN sue_ALT_HOLD_PITCH_MAX sue_ALT_HOLD_PITCH_HIGH sue_ID_VEHICLE_MODEL_NAME sue_ID_VEHICLE_REGISTRATION sue_ID_LEAD_PILOT sue_ID_DIY_DRONES_URL motor_rpm Aoi_Dot NAI_mode aoi p_dot beta alpha sue_number_of_inputs sue_air_speed_3DIMU sue_estimated_wind_0 seq data_version sue_bat_volt sue_magFieldEarth0 sue_magFieldEarth1 sue_magFieldEarth2 SpoilersEngaged AoA p_elev turn_rate SoC serialnumber Index gps_id origin_sysid origin_compid sue_TRAP_FLAGS sue_TRAP_SOURCE sue_RCON sue_DR sue_ROLL_STABILIZATION_AILERONS sue_ROLL_STABILIZATION_RUDDER sue_PITCH_STABILIZATION sue_YAW_STABILIZATION_RUDDER sue_YAW_STABILIZATION_AILERON sue_AILERON_NAVIGATION sue_RUDDER_NAVIGATION sue_ALTITUDEHOLD_STABILIZED sue_ALTITUDEHOLD_WAYPOINT sue_RACING_MODE ICAO sue_WIND_ESTIMATION sue_GPS_TYPE sue_BOARD_TYPE sue_AIRFRAME sue_CLOCK_CONFIG sue_FLIGHT_PLAN_TYPE'.split()
WL={}
for w in WORDS: WL.setdefault(re.sub('_','',w).lower(),[]).append(w)
def variants(go):
    k=go.lower()
    out=[snake(go)]
    s=snake(go.replace('IDence','idence').replace('IDe','ide'))
    if s not in out: out.append(s)
    for w in WL.get(k,[]):
        if w not in out: out.insert(0,w)
    # letter/digit boundary with underscore
    v=re.sub(r'([a-z])(\d)',r'\1_\2',out[-1])
    if v not in out: out.append(v)
    if go.lower() not in out: out.append(go.lower())
    return out
def crcx(name,fs):
    c=x25((name+' ').encode())
    for n,t,a in fs:
        c=x25((t+' ').encode()+(n+' ').encode(),c)
        if a: c=x25(bytes([a]),c)
    return (c&0xff)^(c>>8)
def solve(name,fs,want):
    cands=[variants(n) for n,_,_ in fs]
    # uniform choices first, then combinations, preferring few deviations
    def ok(c): return crcx(name,[(n,t,a) for n,(_,t,a) in zip(c,fs)])==want
    first=[c[0] for c in cands]
    if ok(first): return first,'exact'
    for mode in range(1,4):
        c=[x[min(mode,len(x)-1)] for x in cands]
        if ok(c): return c,'uniform'
    groups={}
    for i,c in enumerate(cands):
        if len(c)>1: groups.setdefault(re.sub(r'\d+','',fs[i][0]).lower(),[]).append(i)
    gl=list(groups.values())
    for k in (1,2):
        for gs in itertools.combinations(gl,k):
            for ch in itertools.product(range(1,4),repeat=k):
                c=list(first)
                for g,x in zip(gs,ch):
                    for i in g: c[i]=cands[i][min(x,len(cands[i])-1)]
                if ok(c): return c,'variant'
    return first,'unmatched'
meta={}
for f in sorted(glob.glob(REPO+'/*/dialect.go')):
    d=f.split('/')[-2]; s=open(f).read()
    meta[d]={int(a):tuple(map(int,b)) for a,*b in re.findall(r'(\d+):\s+mavlink2.MessageMeta{CRCExtra: (\d+), MinimumLength: (\d+), MaximumLength: (\d+)}',s)}
out=[];stat={}
for f in sorted(glob.glob(REPO+'/*/*.go')):
    d=f.split('/')[-2]
    if d in('util','cmd') or f.endswith(('dialect.go','enums.go')): continue
    s=open(f).read(); base=f.split('/')[-1][:-3]
    t=re.search(r'^type (\w+) struct',s,re.M).group(1)
    mid=int(re.search(r'GetID\(\) uint32 {\s*return (\d+)',s,re.S).group(1))
    v1=int(re.search(r'getV1Length\(\) int {\s*return (\d+)',s,re.S).group(1))
    dn=re.search(r'GetDialect\(\) string {\s*return "(\w+)"',s,re.S).group(1)
    if t=='V2Extension': v1=254
    st=re.search(r'^type \w+ struct {(.*?)^}',s,re.M|re.S).group(1)
    st=re.sub(r'/\*.*?\*/','',st,flags=re.S)
    fs=[];off=0
    for l in st.strip().split('\n'):
        if not l.strip(): continue
        n,tt=l.split(); m=re.match(r'(?:\[(\d+)\])?(\w+)$',tt)
        if n in('HasExtensionFieldValues',) or (t=='V2Extension' and n=='PayloadLength'): continue
        fs.append(dict(go=n,type=m.group(2),array=int(m.group(1) or 0),off=off,ext=off>=v1))
        off+=int(m.group(1) or 1)*S[m.group(2)]
    base_fs=[(x['go'],'uint8_t' if t=='V2Extension' and x['type']=='byte' else CT[x['type']],x['array']) for x in fs if not x['ext']]
    reg=mid in meta[d]
    q='unregistered'; names=[snake(x['go']) for x in fs]
    if reg:
        nm,q=solve(base.upper(),base_fs,meta[d][mid][0])
        names[:len(nm)]=nm
        if q=='unmatched': print(d,base,[(a,b) for a,b in zip(nm,base_fs)])
    stat[q]=stat.get(q,0)+1
    sz=[S[x['type']] for x in fs if not x['ext']]
    assert sz==sorted(sz,reverse=True),(d,base)
    for x,n in zip(fs,names): x['wire']=n
    out.append(dict(pkg=d,go=t,dialect=dn,id=mid,wire=base.upper(),registered=reg,crc=meta[d][mid][0] if reg else 0,crc_match=q,
        base_len=sum(S[x['type']]*(x['array'] or 1) for x in fs if not x['ext']),full_len=sum(S[x['type']]*(x['array'] or 1) for x in fs),
        min=meta[d][mid][1] if reg else 0,max=meta[d][mid][2] if reg else 0,variable=(t=='V2Extension'),fields=fs))
for o in out:
    if o['registered']:
        if o['variable']: assert o['max']==254 and o['min']==5,(o['min'],o['max'])
        else: assert (o['min'],o['max'])==(o['base_len'],o['full_len']),o
print(len(out),stat)
with open('/verif/analyzer/spec/messages.json','w') as fh:
    fh.write('[\n'+',\n'.join(json.dumps(o) for o in out)+'\n]\n')
