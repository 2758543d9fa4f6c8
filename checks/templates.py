"""The supported submodel templates (IDTA 02002-1-0, 02006-2-0): field, semantic id, kind, cardinality (1 one, ? at most one, + at least one, * any)."""
TEMPLATES = {'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations': 'ContactInformations', 'https://admin-shell.io/zvei/nameplate/2/0/Nameplate': 'DigitalNameplate'}
ENUMS = {
    'RoleOfContactPerson': ['0173-1#07-AAS927#001', '0173-1#07-AAS928#001', '0173-1#07-AAS929#001', '0173-1#07-AAS930#001', '0173-1#07-AAS931#001'],
    'TypeOfTelephone': ['0173-1#07-AAS754#001', '0173-1#07-AAS755#001', '0173-1#07-AAS756#001', '0173-1#07-AAS757#001', '0173-1#07-AAS758#001', '0173-1#07-AAS759#001'],
    'TypeOfFaxNumber': ['0173-1#07-AAS754#001', '0173-1#07-AAS756#001', '0173-1#07-AAS758#001'],
    'TypeOfEmailAddress': ['0173-1#07-AAS754#001', '0173-1#07-AAS756#001', '0173-1#07-AAS757#001', '0173-1#07-AAS758#001'],
}
CLASSES = {
    'ContactInformations': [
        ('ContactInformation', 'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations/ContactInformation', 'ContactInformation', '+'),
    ],
    'ContactInformation': [
        ('RoleOfContactPerson', '0173-1#02-AAO204#003', 'RoleOfContactPerson', '?'),
        ('NationalCode', '0173-1#02-AAO134#002', 'lang', '?'),
        ('Language', 'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations/ContactInformation/Language', 'str', '*'),
        ('TimeZone', 'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations/ContactInformation/TimeZone', 'str', '?'),
        ('CityTown', '0173-1#02-AAO132#002', 'lang', '?'),
        ('Company', '0173-1#02-AAW001#001', 'lang', '?'),
        ('Department', '0173-1#02-AAO127#003', 'lang', '?'),
        ('Phone', 'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations/ContactInformation/Phone', 'Phone', '?'),
        ('Fax', '0173-1#02-AAQ834#005', 'Fax', '?'),
        ('Email', '0173-1#02-AAQ836#005', 'Email', '?'),
        ('IpcCommunication', 'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations/ContactInformation/IPCommunication', 'IPCommunication', '*'),
        ('Street', '0173-1#02-AAO128#002', 'lang', '?'),
        ('ZipCode', '0173-1#02-AAO129#002', 'lang', '?'),
        ('PoBox', '0173-1#02-AAO130#002', 'lang', '?'),
        ('ZipCodeOfPoBox', '0173-1#02-AAO131#002', 'lang', '?'),
        ('StateCounty', '0173-1#02-AAO133#002', 'lang', '?'),
        ('NameOfContact', '0173-1#02-AAO205#002', 'lang', '?'),
        ('FirstName', '0173-1#02-AAO206#002', 'lang', '?'),
        ('MiddleName', '0173-1#02-AAO207#002', 'lang', '?'),
        ('Title', '0173-1#02-AAO208#003', 'lang', '?'),
        ('AcademicTitle', '0173-1#02-AAO209#003', 'lang', '?'),
        ('FurtherDetailsOfContact', '0173-1#02-AAO210#002', 'lang', '?'),
        ('AddressOfAdditionalLink', '0173-1#02-AAQ326#002', 'str', '?'),
    ],
    'Phone': [
        ('TelephoneNumber', '0173-1#02-AAO136#002', 'lang', '1'),
        ('TypeOfTelephone', '0173-1#02-AAO137#003', 'TypeOfTelephone', '?'),
        ('AvailableTime', 'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations/ContactInformation/AvailableTime/', 'lang', '?'),
    ],
    'Fax': [
        ('FaxNumber', '0173-1#02-AAO195#002', 'lang', '1'),
        ('TypeOfFaxNumber', '0173-1#02-AAO196#003', 'TypeOfFaxNumber', '?'),
    ],
    'Email': [
        ('EmailAddress', '0173-1#02-AAO198#002', 'str', '1'),
        ('PublicKey', '0173-1#02-AAO200#002', 'lang', '?'),
        ('TypeOfEmailAddress', '0173-1#02-AAO199#003', 'TypeOfEmailAddress', '?'),
        ('TypeOfPublicKey', '0173-1#02-AAO201#002', 'lang', '?'),
    ],
    'IPCommunication': [
        ('AddressOfAdditionalLink', '0173-1#02-AAQ326#002', 'str', '1'),
        ('TypeOfCommunication', 'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations/ContactInformation/IPCommunication/TypeOfCommunication', 'str', '?'),
        ('AvailableTime', 'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations/ContactInformation/AvailableTime/', 'str', '?'),
    ],
    'DigitalNameplate': [
        ('UriOfTheProduct', '0173-1#02-AAY811#001', 'str', '1'),
        ('ManufacturerName', '0173-1#02-AAO677#002', 'lang', '1'),
        ('ManufacturerProductDesignation', '0173-1#02-AAW338#001', 'lang', '1'),
        ('ContactInformation', 'https://admin-shell.io/zvei/nameplate/1/0/ContactInformations/ContactInformation', 'ContactInformation', '1'),
        ('ManufacturerProductRoot', '0173-1#02-AAU732#001', 'lang', '?'),
        ('ManufacturerProductFamily', '0173-1#02-AAU731#001', 'lang', '?'),
        ('ManufacturerProductType', '0173-1#02-AAO057#002', 'lang', '?'),
        ('OrderCodeOfManufacturer', '0173-1#02-AAO227#002', 'lang', '?'),
        ('ProductArticleNumberOfManufacturer', '0173-1#02-AAO676#003', 'lang', '?'),
        ('SerialNumber', '0173-1#02-AAM556#002', 'str', '?'),
        ('YearOfConstruction', '0173-1#02-AAP906#001', 'str', '1'),
        ('DateOfManufacture', '0173-1#02-AAR972#002', 'date', '?'),
        ('HardwareVersion', '0173-1#02-AAN270#002', 'lang', '?'),
        ('FirmwareVersion', '0173-1#02-AAM985#002', 'lang', '?'),
        ('SoftwareVersion', '0173-1#02-AAM737#002', 'lang', '?'),
        ('CountryOfOrigin', '0173-1#02-AAO259#004', 'str', '?'),
    ],
}
